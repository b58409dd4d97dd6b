use crate::mc;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

fn st<T>(m: &std::sync::Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ---- RwLock: a waiting writer keeps new readers out, as std's lock does on Linux ----

#[derive(Default)]
struct RwSt {
    readers: usize,
    writer: bool,
    waiting_writers: usize,
}

pub struct RwLock<T: ?Sized> {
    st: std::sync::Mutex<RwSt>,
    inner: std::sync::RwLock<T>,
}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    st: Option<&'a std::sync::Mutex<RwSt>>,
}

pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    st: Option<&'a std::sync::Mutex<RwSt>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            st: std::sync::Mutex::new(RwSt {
                readers: 0,
                writer: false,
                waiting_writers: 0,
            }),
            inner: std::sync::RwLock::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.st as *const _ as *const u8 as usize
    }

    fn real_read(&self, owned: bool) -> LockResult<RwLockReadGuard<'_, T>> {
        let st = if owned { Some(&self.st) } else { None };
        let r = if owned {
            match self.inner.try_read() {
                Ok(g) => Ok(g),
                Err(TryLockError::Poisoned(p)) => Err(p),
                Err(TryLockError::WouldBlock) => self.inner.read(),
            }
        } else {
            self.inner.read()
        };
        match r {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), st }),
            Err(p) => Err(PoisonError::new(RwLockReadGuard {
                g: Some(p.into_inner()),
                st,
            })),
        }
    }

    fn real_write(&self, owned: bool) -> LockResult<RwLockWriteGuard<'_, T>> {
        let st = if owned { Some(&self.st) } else { None };
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), st }),
            Err(p) => Err(PoisonError::new(RwLockWriteGuard {
                g: Some(p.into_inner()),
                st,
            })),
        }
    }

    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        mc::own(self).read_own()
    }
    fn read_own(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let c = match mc::active() {
            None => return self.real_read(false),
            Some(c) => c,
        };
        c.point();
        loop {
            {
                let mut s = st(&self.st);
                if !s.writer && s.waiting_writers == 0 {
                    s.readers += 1;
                    break;
                }
            }
            c.block(self.addr(), None);
            if mc::dying() {
                return self.real_read(false);
            }
        }
        self.real_read(true)
    }

    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        mc::own(self).write_own()
    }
    fn write_own(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let c = match mc::active() {
            None => return self.real_write(false),
            Some(c) => c,
        };
        c.point();
        let mut waiting = false;
        loop {
            {
                let mut s = st(&self.st);
                if !s.writer && s.readers == 0 {
                    s.writer = true;
                    if waiting {
                        s.waiting_writers -= 1;
                    }
                    break;
                }
                if !waiting {
                    waiting = true;
                    s.waiting_writers += 1;
                }
            }
            c.block(self.addr(), None);
            if mc::dying() {
                return self.real_write(false);
            }
        }
        self.real_write(true)
    }

    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc::own(self).try_read_own()
    }
    fn try_read_own(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if let Some(c) = mc::active() {
            c.point();
            {
                let mut s = st(&self.st);
                if s.writer || s.waiting_writers > 0 {
                    drop(s);
                    mc::poll(32);
                    return Err(TryLockError::WouldBlock);
                }
                s.readers += 1;
            }
            return Ok(self.real_read(true)?);
        }
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), st: None }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                RwLockReadGuard {
                    g: Some(p.into_inner()),
                    st: None,
                },
            ))),
        }
    }

    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc::own(self).try_write_own()
    }
    fn try_write_own(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if let Some(c) = mc::active() {
            c.point();
            {
                let mut s = st(&self.st);
                if s.writer || s.readers > 0 {
                    drop(s);
                    mc::poll(32);
                    return Err(TryLockError::WouldBlock);
                }
                s.writer = true;
            }
            return Ok(self.real_write(true)?);
        }
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), st: None }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                RwLockWriteGuard {
                    g: Some(p.into_inner()),
                    st: None,
                },
            ))),
        }
    }

    pub fn is_poisoned(&self) -> bool {
        mc::own(self).inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        mc::own(self).inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        if let Some(m) = self.st {
            st(m).readers -= 1;
            if let Some(c) = mc::cur() {
                c.wake(m as *const _ as *const u8 as usize)
            }
        }
    }
}

impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        if let Some(m) = self.st {
            st(m).writer = false;
            if let Some(c) = mc::cur() {
                c.wake(m as *const _ as *const u8 as usize)
            }
        }
    }
}

impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

// ---- Mutex ----

pub struct Mutex<T: ?Sized> {
    st: std::sync::Mutex<bool>,
    inner: std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<std::sync::MutexGuard<'a, T>>,
    owned: bool,
    lock: &'a Mutex<T>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex {
            st: std::sync::Mutex::new(false),
            inner: std::sync::Mutex::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.st as *const _ as *const u8 as usize
    }

    fn real(&self, owned: bool) -> LockResult<MutexGuard<'_, T>> {
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard {
                g: Some(g),
                owned,
                lock: self,
            }),
            Err(p) => Err(PoisonError::new(MutexGuard {
                g: Some(p.into_inner()),
                owned,
                lock: self,
            })),
        }
    }

    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        mc::own(self).lock_own()
    }
    fn lock_own(&self) -> LockResult<MutexGuard<'_, T>> {
        let c = match mc::active() {
            None => return self.real(false),
            Some(c) => c,
        };
        c.point();
        loop {
            {
                let mut s = st(&self.st);
                if !*s {
                    *s = true;
                    break;
                }
            }
            c.block(self.addr(), None);
            if mc::dying() {
                return self.real(false);
            }
        }
        self.real(true)
    }

    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc::own(self).try_lock_own()
    }
    fn try_lock_own(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if let Some(c) = mc::active() {
            c.point();
            {
                let mut s = st(&self.st);
                if *s {
                    drop(s);
                    mc::poll(32);
                    return Err(TryLockError::WouldBlock);
                }
                *s = true;
            }
            return Ok(self.real(true)?);
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard {
                g: Some(g),
                owned: false,
                lock: self,
            }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                    g: Some(p.into_inner()),
                    owned: false,
                    lock: self,
                })))
            }
        }
    }

    pub fn is_poisoned(&self) -> bool {
        mc::own(self).inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        mc::own(self).inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        if self.owned {
            *st(&self.lock.st) = false;
            if let Some(c) = mc::cur() {
                c.wake(self.lock.addr())
            }
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

// ---- Condvar ----

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Debug, Default)]
pub struct Condvar {
    inner: std::sync::Condvar,
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            inner: std::sync::Condvar::new(),
        }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }

    fn real<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Option<Duration>,
    ) -> LockResult<(MutexGuard<'a, T>, bool)> {
        let lock = g.lock;
        let r = g.g.take().unwrap();
        g.owned = false;
        let (r, poisoned, timed) = match d {
            None => match self.inner.wait(r) {
                Ok(g) => (g, false, false),
                Err(p) => (p.into_inner(), true, false),
            },
            Some(d) => match self.inner.wait_timeout(r, d) {
                Ok((g, t)) => (g, false, t.timed_out()),
                Err(p) => {
                    let (g, t) = p.into_inner();
                    (g, true, t.timed_out())
                }
            },
        };
        let g = MutexGuard {
            g: Some(r),
            owned: false,
            lock,
        };
        if poisoned {
            Err(PoisonError::new((g, timed)))
        } else {
            Ok((g, timed))
        }
    }

    fn wait_any<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Option<Duration>,
    ) -> LockResult<(MutexGuard<'a, T>, bool)> {
        let me = mc::own(self);
        match mc::active() {
            Some(c) if g.owned => {
                let lock = g.lock;
                drop(g);
                let at = d.map(|d| c.now_ns() + d.as_nanos() as u64);
                let timed = c.block(me.addr(), at);
                match lock.lock() {
                    Ok(g) => Ok((g, timed)),
                    Err(p) => Err(PoisonError::new((p.into_inner(), timed))),
                }
            }
            _ => me.real(g, d),
        }
    }

    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        match self.wait_any(g, None) {
            Ok((g, _)) => Ok(g),
            Err(p) => Err(PoisonError::new(p.into_inner().0)),
        }
    }

    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }

    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        match self.wait_any(g, Some(d)) {
            Ok((g, t)) => Ok((g, WaitTimeoutResult(t))),
            Err(p) => {
                let (g, t) = p.into_inner();
                Err(PoisonError::new((g, WaitTimeoutResult(t))))
            }
        }
    }

    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        while cond(&mut *g) {
            let (g2, t) = self.wait_timeout(g, d)?;
            g = g2;
            if t.timed_out() {
                let still = cond(&mut *g);
                return Ok((g, WaitTimeoutResult(still)));
            }
        }
        Ok((g, WaitTimeoutResult(false)))
    }

    pub fn notify_one(&self) {
        let me = mc::own(self);
        if let Some(c) = mc::active() {
            c.point();
            c.wake_one(me.addr())
        }
        me.inner.notify_one()
    }
    pub fn notify_all(&self) {
        let me = mc::own(self);
        if let Some(c) = mc::active() {
            c.point();
            c.wake(me.addr())
        }
        me.inner.notify_all()
    }
}
