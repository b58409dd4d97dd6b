//! `std::sync` with scheduling points.
pub use std::sync::*;

pub mod atomic;
mod lock;
pub mod mpsc;
mod once;

pub use once::{LazyLock, Once, OnceLock};
pub use lock::{
    Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
};
