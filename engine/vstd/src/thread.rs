//! `std::thread` under the controlled scheduler.
pub use std::thread::*;
use crate::mc;
use std::any::Any;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Slot<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;

enum How<T> {
    Real(std::thread::JoinHandle<T>),
    Mc { tid: usize, slot: Slot<T> },
}

pub struct JoinHandle<T>(How<T>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.0 {
            How::Real(h) => h.join(),
            How::Mc { tid, slot } => join_mc(tid, &slot),
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            How::Real(h) => h.is_finished(),
            How::Mc { tid, .. } => mc::cur().map_or(true, |c| {
                c.point();
                c.is_done(*tid)
            }),
        }
    }
    pub fn thread(&self) -> &std::thread::Thread {
        match &self.0 {
            How::Real(h) => h.thread(),
            How::Mc { .. } => unimplemented!("JoinHandle::thread under the model checker"),
        }
    }
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}

fn join_mc<T>(tid: usize, slot: &Slot<T>) -> std::thread::Result<T> {
    let addr = Arc::as_ptr(slot) as *const u8 as usize;
    if let Some(c) = mc::active() {
        c.point();
        while !c.is_done(tid) && !mc::dying() {
            c.block(addr, None);
        }
    }
    match slot.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(r) => r,
        None => Err(Box::new("the thread did not end") as Box<dyn Any + Send>),
    }
}

fn start_mc<'a, F, T>(c: &mc::Ctx, f: F) -> (usize, Slot<T>)
where
    F: FnOnce() -> T + Send + 'a,
    T: Send + 'a,
{
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let addr = Arc::as_ptr(&slot) as *const u8 as usize;
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        let put = |r| *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        match r {
            Ok(v) => put(Ok(v)),
            Err(p) => {
                // the joiner only learns that it panicked; the scheduler reports it
                put(Err(Box::new("a thread panicked") as Box<dyn Any + Send>));
                std::panic::resume_unwind(p)
            }
        }
    });
    // a scoped thread is joined (or killed) before 'a ends
    let body: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(body) };
    c.point();
    let tid = c.spawn(body, addr);
    c.point();
    (tid, slot)
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    match mc::active() {
        None => JoinHandle(How::Real(std::thread::spawn(f))),
        Some(c) => {
            let (tid, slot) = start_mc(&c, f);
            JoinHandle(How::Mc { tid, slot })
        }
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if mc::cur().is_some() {
            return Ok(spawn(f));
        }
        let mut b = std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n)
        }
        if let Some(n) = self.stack {
            b = b.stack_size(n)
        }
        Ok(JoinHandle(How::Real(b.spawn(f)?)))
    }
}

pub fn sleep(d: Duration) {
    match mc::active() {
        None => {
            if !mc::dying() {
                std::thread::sleep(d)
            }
        }
        Some(c) => {
            c.sleep(d);
            mc::lag("waking up");
        }
    }
}

pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}

pub fn yield_now() {
    match mc::active() {
        None => std::thread::yield_now(),
        Some(c) => c.spin(),
    }
}

/// Scoped threads: joined when the scope ends.
pub struct Scope<'scope, 'env: 'scope> {
    made: Mutex<Vec<Box<dyn FnOnce() -> bool + Send + 'scope>>>,
    _s: PhantomData<&'scope mut &'scope ()>,
    _e: PhantomData<&'env mut &'env ()>,
}

pub struct ScopedJoinHandle<'scope, T> {
    slot: Slot<T>,
    tid: Option<usize>,
    real: Option<Arc<Mutex<Option<std::thread::JoinHandle<()>>>>>,
    _s: PhantomData<&'scope ()>,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.tid {
            Some(tid) => join_mc(tid, &self.slot),
            None => {
                if let Some(h) = self.real.as_ref().unwrap().lock().unwrap().take() {
                    let _ = h.join();
                }
                match self.slot.lock().unwrap().take() {
                    Some(r) => r,
                    None => Err(Box::new("already joined")),
                }
            }
        }
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match mc::active() {
            Some(c) => {
                let (tid, slot) = start_mc(&c, f);
                let s2 = slot.clone();
                self.made.lock().unwrap().push(Box::new(move || {
                    if let Some(c) = mc::active() {
                        let addr = Arc::as_ptr(&s2) as *const u8 as usize;
                        while !c.is_done(tid) && !mc::dying() {
                            c.block(addr, None);
                        }
                    }
                    let g = s2.lock().unwrap_or_else(|e| e.into_inner());
                    !matches!(&*g, Some(Err(_)))
                }));
                ScopedJoinHandle {
                    slot,
                    tid: Some(tid),
                    real: None,
                    _s: PhantomData,
                }
            }
            None => {
                let slot: Slot<T> = Arc::new(Mutex::new(None));
                let s2 = slot.clone();
                let s3 = slot.clone();
                let body: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
                    let r = catch_unwind(AssertUnwindSafe(f));
                    *s2.lock().unwrap() = Some(r);
                });
                let body: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(body) };
                let h = Arc::new(Mutex::new(Some(std::thread::spawn(body))));
                let h2 = h.clone();
                self.made.lock().unwrap().push(Box::new(move || {
                    if let Some(h) = h2.lock().unwrap().take() {
                        let _ = h.join();
                    }
                    let g = s3.lock().unwrap();
                    !matches!(&*g, Some(Err(_)))
                }));
                ScopedJoinHandle {
                    slot,
                    tid: None,
                    real: Some(h),
                    _s: PhantomData,
                }
            }
        }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        made: Mutex::new(vec![]),
        _s: PhantomData,
        _e: PhantomData,
    };
    let sref: &Scope<'_, 'env> = unsafe { &*(&s as *const Scope<'_, 'env>) };
    let r = catch_unwind(AssertUnwindSafe(|| f(sref)));
    let mut ok = true;
    loop {
        let j = s.made.lock().unwrap().pop();
        match j {
            Some(j) => ok &= j(),
            None => break,
        }
    }
    match r {
        Ok(v) if ok => v,
        Ok(_) => panic!("a scoped thread panicked"),
        Err(p) => std::panic::resume_unwind(p),
    }
}
