//! Channels with scheduling points.
pub use std::sync::mpsc::{
    RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
};
use crate::mc;
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

struct Q<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receiver: bool,
    /// items taken so far: a rendezvous send waits for its item to be taken
    taken: u64,
    put: u64,
}

struct Chan<T> {
    m: Mutex<Q<T>>,
    cv: Condvar,
}

impl<T> Chan<T> {
    fn lock(&self) -> MutexGuard<'_, Q<T>> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn addr(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
    fn wake(&self) {
        self.cv.notify_all();
        if let Some(c) = mc::cur() {
            c.wake(self.addr())
        }
    }
    fn wait<'a>(&'a self, g: MutexGuard<'a, Q<T>>, d: Option<Duration>) -> (MutexGuard<'a, Q<T>>, bool) {
        match mc::active() {
            Some(c) => {
                drop(g);
                let at = d.map(|d| c.now_ns() + d.as_nanos() as u64);
                let timed = c.block(self.addr(), at);
                (self.lock(), timed)
            }
            None => match d {
                None => {
                    // a thread that is being killed must not wait for ever
                    let (g, t) = self
                        .cv
                        .wait_timeout(g, Duration::from_millis(200))
                        .unwrap_or_else(|e| e.into_inner());
                    let _ = t;
                    (g, false)
                }
                Some(d) => {
                    let (g, t) = self.cv.wait_timeout(g, d).unwrap_or_else(|e| e.into_inner());
                    (g, t.timed_out())
                }
            },
        }
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        m: Mutex::new(Q {
            q: VecDeque::new(),
            cap,
            senders: 1,
            receiver: true,
            taken: 0,
            put: 0,
        }),
        cv: Condvar::new(),
    })
}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender(c.clone()), Receiver(c))
}

pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = new(Some(cap));
    (SyncSender(c.clone()), Receiver(c))
}

fn point() {
    if let Some(c) = mc::active() {
        c.point()
    }
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        point();
        let mut g = self.0.lock();
        if !g.receiver {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        g.put += 1;
        drop(g);
        self.0.wake();
        Ok(())
    }
}

impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        point();
        let mut g = self.0.lock();
        let cap = g.cap.unwrap();
        while g.receiver && g.q.len() >= cap.max(1) && !mc::dying() {
            g = self.0.wait(g, None).0;
        }
        if !g.receiver {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        g.put += 1;
        let mine = g.put;
        drop(g);
        self.0.wake();
        if cap == 0 {
            let mut g = self.0.lock();
            while g.receiver && g.taken < mine && !mc::dying() {
                g = self.0.wait(g, None).0;
            }
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        point();
        let mut g = self.0.lock();
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if g.q.len() >= g.cap.unwrap() {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        g.put += 1;
        drop(g);
        self.0.wake();
        Ok(())
    }
}

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        point();
        let mut g = self.0.lock();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.0.wake();
                return Ok(t);
            }
            if g.senders == 0 || mc::dying() {
                return Err(RecvError);
            }
            g = self.0.wait(g, None).0;
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        point();
        let mut g = self.0.lock();
        if let Some(t) = g.q.pop_front() {
            g.taken += 1;
            drop(g);
            self.0.wake();
            return Ok(t);
        }
        if g.senders == 0 {
            return Err(TryRecvError::Disconnected);
        }
        drop(g);
        // the caller polls
        if let Some(c) = mc::active() {
            c.spin();
        }
        Err(TryRecvError::Empty)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        point();
        let end = Instant::now() + d;
        let mut left = d;
        let mut timed = false;
        let mut g = self.0.lock();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.0.wake();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            if timed || mc::dying() {
                return Err(RecvTimeoutError::Timeout);
            }
            let (g2, t) = self.0.wait(g, Some(left));
            g = g2;
            timed = t;
            if mc::cur().is_none() {
                left = end.saturating_duration_since(Instant::now());
                timed = left == Duration::ZERO;
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}

macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.lock().senders += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.lock().senders -= 1;
                self.0.wake();
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($n))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut g = self.0.lock();
            g.receiver = false;
            std::mem::take(&mut g.q)
        };
        drop(q);
        self.0.wake();
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
