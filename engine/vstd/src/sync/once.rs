//! One-time initialisation: the first caller initialises under a lock of this crate's, so that it may be
//! interrupted in the middle.
use super::lock::Mutex;
use crate::mc;
use std::cell::Cell;
use std::fmt;
use std::ops::Deref;

pub struct OnceLock<T> {
    m: Mutex<()>,
    v: std::sync::OnceLock<T>,
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { m: Mutex::new(()), v: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        let s = mc::own(self);
        if let Some(c) = mc::active() {
            c.point();
            mc::poll(32);
        }
        s.v.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let s = mc::own(self);
        let _g = s.m.lock().unwrap_or_else(|e| e.into_inner());
        s.v.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let s = mc::own(self);
        if let Some(v) = s.v.get() {
            return v;
        }
        let _g = s.m.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(v) = s.v.get() {
            return v;
        }
        let t = f();
        let _ = s.v.set(t);
        s.v.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.v.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        mc::own(self).v.fmt(f)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { m: Mutex::new(()), v: std::sync::OnceLock::from(t) }
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}

impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        let s = mc::own(this);
        s.once.get_or_init(|| s.init.take().expect("LazyLock instance has previously been poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        Self::new(T::default)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
