//! A look-alike of `std` for code under model checking: `extern crate vstd as std;` in the checked
//! crate makes every `std::sync`, `std::thread`, `std::time` and `std::fs` path resolve here.
//!
//! Inside a controlled execution (see [`mc`]) threads run one at a time, every synchronisation
//! operation is a scheduling point, the clock is virtual and file-system calls can fail or be cut
//! short by a crash. Outside one, everything falls through to the real `std`.
#![allow(clippy::all)]
pub use std::*;

pub mod fs;
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        match crate::mc::active() {
            None => std::hint::spin_loop(),
            Some(c) => c.spin(),
        }
    }
}
pub mod mc;
pub mod sync;
pub mod thread;
pub mod time;
