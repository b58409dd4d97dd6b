//! Atomics with a scheduling point before each access (all orderings behave as SeqCst).
pub use std::sync::atomic::{compiler_fence, fence, Ordering};
use crate::mc;
use std::fmt;

fn p() {
    if let Some(c) = mc::active() {
        c.point()
    }
}

/// Before an access that may end somebody's poll.
fn w() {
    if let Some(c) = mc::active() {
        c.point();
        c.changed()
    }
}

macro_rules! common {
    ($n:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $n(std::sync::atomic::$n);
        impl $n {
            pub const fn new(v: $t) -> Self {
                Self(std::sync::atomic::$n::new(v))
            }
            pub fn load(&self, _: Ordering) -> $t {
                p();
                mc::poll(32);
                mc::own(self).0.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _: Ordering) {
                w();
                mc::own(self).0.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(
                &self,
                a: $t,
                b: $t,
                _: Ordering,
                _: Ordering,
            ) -> Result<$t, $t> {
                w();
                mc::own(self).0
                    .compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(
                &self,
                a: $t,
                b: $t,
                x: Ordering,
                y: Ordering,
            ) -> Result<$t, $t> {
                self.compare_exchange(a, b, x, y)
            }
            pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t {
                match self.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                _: Ordering,
                _: Ordering,
                mut f: F,
            ) -> Result<$t, $t> {
                let mut cur = self.load(Ordering::SeqCst);
                while let Some(n) = f(cur) {
                    match self.compare_exchange(cur, n, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(v) => return Ok(v),
                        Err(v) => cur = v,
                    }
                }
                Err(cur)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                mc::own(self).0.fmt(f)
            }
        }
        impl Default for $n {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! int {
    ($n:ident, $t:ty) => {
        common!($n, $t);
        impl $n {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_add(v, Ordering::SeqCst)
            }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_sub(v, Ordering::SeqCst)
            }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_max(v, Ordering::SeqCst)
            }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_min(v, Ordering::SeqCst)
            }
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_and(v, Ordering::SeqCst)
            }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_or(v, Ordering::SeqCst)
            }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                w();
                mc::own(self).0.fetch_xor(v, Ordering::SeqCst)
            }
        }
    };
}

int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
        w();
        mc::own(self).0.fetch_and(v, Ordering::SeqCst)
    }
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
        w();
        mc::own(self).0.fetch_or(v, Ordering::SeqCst)
    }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
        w();
        mc::own(self).0.fetch_xor(v, Ordering::SeqCst)
    }
    pub fn fetch_not(&self, _: Ordering) -> bool {
        w();
        mc::own(self).0.fetch_xor(true, Ordering::SeqCst)
    }
}
pub use std::sync::atomic::AtomicPtr;
