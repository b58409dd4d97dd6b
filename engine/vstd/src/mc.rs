//! The controlled scheduler and the explorer.
//!
//! An execution is a deterministic function of its choice sequence. Choices are: which runnable
//! thread goes on at a scheduling point (switching away from a thread that could go on costs one
//! preemption, of which there are at most `Cfg::preemptions`), which alternative a `choose` takes
//! (free), and whether a fault or a crash happens at a point (each costs one of `Cfg::faults`, resp.
//! `Cfg::crashes`). [`explore`] enumerates every choice sequence within those budgets.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

/// Virtual time at the start of every execution, in ms since the epoch.
pub const START_MS: u64 = 1_700_000_000_000;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub preemptions: u32,
    pub faults: u32,
    pub crashes: u32,
    pub max_steps: u64,
    /// a panic in a thread other than the driver is a failure
    pub bg_panic_fails: bool,
    /// schedule choices are explored only while `sched(true)` is on (the driver switches it)
    pub sched_from_start: bool,
    /// choices where the current thread cannot go on count against the bound as well (delay bounding)
    pub delays: bool,
    /// once per execution, a thread that polls or waits with a time limit may go on for this many polls
    /// before any other thread, though ready, runs
    pub stall: u32,
    /// how many calls outside (of a backend or the file system), or wake-ups of a sleeper, take longer than
    /// they should: each by one of `slow` (ms; 0: none)
    pub slows: u32,
    pub slow: [u64; 4],
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            preemptions: 0,
            faults: 0,
            crashes: 0,
            max_steps: 200_000,
            bg_panic_fails: true,
            sched_from_start: true,
            delays: false,
            stall: 0,
            slows: 0,
            slow: [0; 4],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Run {
    Ready,
    /// waiting for `addr` to be woken, or for the clock to reach the deadline
    Wait(usize, Option<u64>),
    Done,
}

struct Th {
    run: Run,
    cv: Arc<Condvar>,
    timed_out: bool,
    /// the generation in which it last polled in vain
    polled: u64,
    /// how many more times it polls before anybody else runs
    stall_left: u32,
    /// how often it looked at something in one generation
    looked_at: u64,
    looks: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Choice {
    pub n: u32,
    pub c: u32,
}

struct St {
    th: Vec<Th>,
    cur: usize,
    clock_ns: u64,
    prefix: Vec<Choice>,
    trace: Vec<Choice>,
    cfg: Cfg,
    preempted: u32,
    faulted: u32,
    crashed: u32,
    steps: u64,
    failure: Option<String>,
    aborting: bool,
    session: Option<usize>,
    crashing: bool,
    sched_on: bool,
    faults_on: bool,
    crash_on: bool,
    /// the one long delay of this execution has been used
    stalled: bool,
    slow_on: bool,
    /// the delays that have been used
    slowed: u32,
    /// polls in vain since something last changed
    spins: u32,
    /// counts changes that may end a poll
    gen: u64,
    notes_on: bool,
    notes: Vec<String>,
    outcome: Vec<String>,
    finished: bool,
    kill_watch: bool,
    diverged: bool,
}

pub struct Exec {
    m: Mutex<St>,
    ctl: Condvar,
    pub root: PathBuf,
    rooted: AtomicBool,
    pub fs: Mutex<crate::fs::Model>,
    pub objects: Mutex<HashMap<&'static str, Box<dyn Any + Send>>>,
    statics: Mutex<Statics>,
}

/// What a killed thread unwinds with.
struct Kill;

#[derive(Clone)]
pub struct Ctx {
    ex: Arc<Exec>,
    tid: usize,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// The controlled execution this thread belongs to, unless it is being killed or unwinding from a
/// kill, in which case everything falls through.
pub fn cur() -> Option<Ctx> {
    CTX.with(|c| c.borrow().clone())
}

/// As `cur`, but None in a thread that is being killed (which unwinds here, unless it already does).
pub fn active() -> Option<Ctx> {
    let c = cur()?;
    let die = {
        let st = c.ex.lock();
        c.must_die(&st)
    };
    if die {
        kill();
        return None;
    }
    Some(c)
}

/// True in a controlled thread that is being killed: its operations must have no lasting effect.
pub fn dying() -> bool {
    match cur() {
        None => false,
        Some(c) => {
            let st = c.ex.lock();
            st.aborting || (st.crashing && c.in_session(&st))
        }
    }
}

impl Exec {
    fn lock(&self) -> MutexGuard<'_, St> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
}

fn kill() {
    if !std::thread::panicking() {
        resume_unwind(Box::new(Kill))
    }
}

impl St {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p.n != n as u32 {
                // the code under test is not deterministic (say, it iterates over a HashMap): this is
                // an execution like any other, but not the one that was asked for
                self.diverged = true;
                self.prefix.truncate(i);
                0
            } else {
                p.c
            }
        } else {
            0
        };
        self.trace.push(Choice { n: n as u32, c });
        c as usize
    }

    fn changed(&mut self) {
        self.gen += 1;
        self.spins = 0;
    }

    fn fail(&mut self, why: String) {
        if self.failure.is_none() {
            self.failure = Some(why);
        }
        self.aborting = true;
    }

    fn ready(&self) -> Vec<usize> {
        (0..self.th.len())
            .filter(|&i| self.th[i].run == Run::Ready)
            .collect()
    }

    /// Nobody can run: let time pass until the first deadline. False when there is none.
    fn tick(&mut self) -> bool {
        let mut at = None;
        for t in &self.th {
            if let Run::Wait(_, Some(d)) = t.run {
                at = Some(at.map_or(d, |a: u64| a.min(d)));
            }
        }
        match at {
            None => false,
            Some(at) => {
                self.changed();
                self.clock_ns = self.clock_ns.max(at);
                self.expire();
                true
            }
        }
    }

    /// Those whose deadline has passed can run.
    fn expire(&mut self) {
        for t in &mut self.th {
            if let Run::Wait(_, Some(d)) = t.run {
                if d <= self.clock_ns {
                    t.run = Run::Ready;
                    t.timed_out = true;
                }
            }
        }
    }

    /// Whether thread `tid` goes on for long while the others, which could run, do not.
    fn may_stall(&mut self, tid: usize) -> bool {
        if self.cfg.stall == 0 || !self.sched_on || self.stalled || self.ready().iter().all(|&i| i == tid) {
            return false;
        }
        self.stalled = self.choose(2) == 1;
        self.stalled
    }

    fn any_of(&mut self, r: &[usize]) -> usize {
        if !self.sched_on || (self.cfg.delays && self.preempted >= self.cfg.preemptions) {
            return r[0];
        }
        let k = self.choose(r.len());
        if k > 0 && self.cfg.delays {
            self.preempted += 1;
        }
        r[k]
    }

    /// The thread to run next when the current one cannot (or does not want to) go on.
    fn next(&mut self, not: Option<usize>) -> Option<usize> {
        loop {
            let mut r = self.ready();
            if let Some(n) = not {
                r.retain(|&i| i != n);
            }
            // those that polled in vain, and nothing changed since, come last
            if r.iter().any(|&i| self.th[i].polled != self.gen) {
                r.retain(|&i| self.th[i].polled != self.gen);
            } else {
                r.truncate(1);
            }
            if !r.is_empty() {
                return Some(self.any_of(&r));
            }
            if !self.tick() {
                return None;
            }
        }
    }
}

impl Ctx {
    fn in_session(&self, st: &St) -> bool {
        match st.session {
            Some(first) => self.tid == 0 || self.tid >= first,
            None => false,
        }
    }

    fn must_die(&self, st: &St) -> bool {
        st.aborting || (st.crashing && self.in_session(st))
    }

    /// Ends the execution: hands the baton to the controller.
    fn give_up(&self, mut st: MutexGuard<'_, St>) {
        st.aborting = true;
        self.ex.ctl.notify_all();
        drop(st);
        kill()
    }

    fn switch<'a>(&'a self, mut st: MutexGuard<'a, St>, to: usize) -> MutexGuard<'a, St> {
        if to == self.tid {
            st.cur = to;
            return st;
        }
        st.cur = to;
        st.th[to].cv.notify_all();
        let cv = st.th[self.tid].cv.clone();
        while st.cur != self.tid {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        st
    }

    /// A scheduling point before a visible operation.
    pub fn point(&self) {
        let mut st = self.ex.lock();
        if self.must_die(&st) {
            drop(st);
            return kill();
        }
        st.steps += 1;
        if st.th[self.tid].stall_left > 0 {
            st.steps -= 1;
            return;
        }
        if st.steps > st.cfg.max_steps {
            let n = st.cfg.max_steps;
            st.fail(format!("no end after {} steps (livelock)", n));
            return self.give_up(st);
        }
        if !st.sched_on || st.preempted >= st.cfg.preemptions {
            return;
        }
        let mut r = st.ready();
        r.retain(|&i| i != self.tid);
        if r.is_empty() {
            return;
        }
        r.insert(0, self.tid);
        let k = st.choose(r.len());
        if st.aborting {
            return self.give_up(st);
        }
        if k > 0 {
            st.preempted += 1;
            let st = self.switch(st, r[k]);
            if self.must_die(&st) {
                drop(st);
                kill()
            }
        }
    }

    /// Blocks until `addr` is woken or the deadline (virtual ns) passes. True when it timed out.
    pub fn block(&self, addr: usize, deadline: Option<u64>) -> bool {
        let mut st = self.ex.lock();
        if self.must_die(&st) {
            drop(st);
            kill();
            return true;
        }
        st.steps += 1;
        if st.steps > st.cfg.max_steps {
            let n = st.cfg.max_steps;
            st.fail(format!("no end after {} steps (livelock)", n));
            self.give_up(st);
            return true;
        }
        if let Some(d) = deadline {
            // everybody else is so slow that the deadline passes first
            if st.th[self.tid].stall_left == 0 && st.may_stall(self.tid) {
                st.th[self.tid].stall_left = st.cfg.stall;
            }
            if st.th[self.tid].stall_left > 0 {
                st.th[self.tid].stall_left -= 1;
                st.clock_ns = st.clock_ns.max(d);
                st.expire();
                return true;
            }
        }
        st.th[self.tid].stall_left = 0;
        st.th[self.tid].run = Run::Wait(addr, deadline);
        st.th[self.tid].timed_out = false;
        let to = match st.next(None) {
            Some(t) => t,
            None => {
                let who: Vec<String> = st
                    .th
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.run != Run::Done)
                    .map(|(i, _)| format!("thread {}", i))
                    .collect();
                st.fail(format!("deadlock: {} all wait for ever", who.join(", ")));
                self.give_up(st);
                return true;
            }
        };
        if st.aborting {
            self.give_up(st);
            return true;
        }
        let st = self.switch(st, to);
        if self.must_die(&st) {
            drop(st);
            kill();
            return true;
        }
        st.th[self.tid].timed_out
    }

    pub fn wake(&self, addr: usize) {
        let mut st = self.ex.lock();
        st.changed();
        for t in &mut st.th {
            if let Run::Wait(a, _) = t.run {
                if a == addr {
                    t.run = Run::Ready;
                }
            }
        }
    }

    pub fn wake_one(&self, addr: usize) {
        let mut st = self.ex.lock();
        st.changed();
        for t in &mut st.th {
            if let Run::Wait(a, _) = t.run {
                if a == addr {
                    t.run = Run::Ready;
                    return;
                }
            }
        }
    }

    /// The current thread polls in vain: let somebody else run (free of charge), or let time pass.
    /// Threads that have polled since anything last changed are not worth running, so that pollers do
    /// not take turns for ever.
    pub fn spin(&self) {
        let mut st = self.ex.lock();
        if self.must_die(&st) {
            drop(st);
            return kill();
        }
        if st.th[self.tid].stall_left == 0 && st.may_stall(self.tid) {
            st.th[self.tid].stall_left = st.cfg.stall;
        }
        if st.aborting {
            return self.give_up(st);
        }
        if st.th[self.tid].stall_left > 0 {
            st.th[self.tid].stall_left -= 1;
            st.clock_ns += 1000;
            st.expire();
            return;
        }
        st.steps += 1;
        st.spins += 1;
        let gen = st.gen;
        st.th[self.tid].polled = gen;
        let others: Vec<usize> = st.ready().into_iter().filter(|&i| i != self.tid).collect();
        let fresh: Vec<usize> = others.iter().copied().filter(|&i| st.th[i].polled != gen).collect();
        let n = st.th.len() as u32;
        let to = if fresh.is_empty() {
            if others.is_empty() || st.spins > 3 * n {
                let moved = st.tick();
                if (!moved && st.spins > 64 * n) || st.steps > st.cfg.max_steps {
                    st.fail("threads poll for ever and nobody can make progress".into());
                    return self.give_up(st);
                }
            }
            match others.iter().find(|&&i| i > self.tid).or(others.first()) {
                None => return,
                Some(&i) => i,
            }
        } else {
            st.any_of(&fresh)
        };
        if st.aborting {
            return self.give_up(st);
        }
        let st = self.switch(st, to);
        if self.must_die(&st) {
            drop(st);
            kill()
        }
    }

    /// The current thread looks at something without changing anything: when it does so again and
    /// again it is polling.
    pub fn poll(&self, patience: u32) {
        let spin = {
            let mut st = self.ex.lock();
            let gen = st.gen;
            let t = &mut st.th[self.tid];
            if t.looked_at != gen {
                t.looked_at = gen;
                t.looks = 0;
            }
            t.looks += 1;
            t.looks > patience
        };
        if spin {
            self.spin()
        }
    }

    /// Something that a polling thread may be waiting for has changed.
    pub fn changed(&self) {
        self.ex.lock().changed();
    }

    pub fn now_ns(&self) -> u64 {
        self.ex.lock().clock_ns
    }

    pub fn exec(&self) -> &Arc<Exec> {
        &self.ex
    }

    pub fn tid(&self) -> usize {
        self.tid
    }

    pub fn sleep(&self, d: Duration) {
        let until = self.now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64);
        self.block(0, Some(until));
    }

    /// Starts a controlled thread.
    pub fn spawn(&self, f: Box<dyn FnOnce() + Send>, done: usize) -> usize {
        let tid = {
            let mut st = self.ex.lock();
            let tid = st.th.len();
            st.th.push(Th {
                run: Run::Ready,
                cv: Arc::new(Condvar::new()),
                timed_out: false,
                polled: 0,
                stall_left: 0,
                looked_at: 0,
                looks: 0,
            });
            tid
        };
        start(self.ex.clone(), tid, f, done);
        tid
    }

    pub fn is_done(&self, tid: usize) -> bool {
        self.ex.lock().th[tid].run == Run::Done
    }
}

// ---- OS threads that carry controlled threads ----

type Job = Box<dyn FnOnce() + Send>;
static POOL: Mutex<Vec<mpsc::Sender<Job>>> = Mutex::new(Vec::new());

fn on_pool(job: Job) {
    let got = POOL.lock().unwrap().pop();
    let tx = match got {
        Some(tx) => tx,
        None => {
            let (tx, rx) = mpsc::channel::<Job>();
            let back = tx.clone();
            std::thread::Builder::new()
                .name("mc".into())
                .stack_size(4 << 20)
                .spawn(move || {
                    while let Ok(job) = rx.recv() {
                        job();
                        POOL.lock().unwrap().push(back.clone());
                    }
                })
                .expect("cannot start a thread");
            tx
        }
    };
    tx.send(job).expect("pool thread gone");
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = LAST_PANIC.with(|l| l.borrow_mut().take()) {
        return s;
    }
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

fn start(ex: Arc<Exec>, tid: usize, f: Box<dyn FnOnce() + Send>, done: usize) {
    on_pool(Box::new(move || {
        let ctx = Ctx {
            ex: ex.clone(),
            tid,
        };
        CTX.with(|c| *c.borrow_mut() = Some(ctx.clone()));
        QUIET.with(|q| q.set(true));
        {
            let mut st = ex.lock();
            let cv = st.th[tid].cv.clone();
            while st.cur != tid {
                st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            {
                let st = ex.lock();
                if ctx.must_die(&st) {
                    drop(st);
                    kill();
                }
            }
            f()
        }));
        CTX.with(|c| *c.borrow_mut() = None);
        QUIET.with(|q| q.set(false));
        let mut st = ex.lock();
        if let Err(p) = r {
            if !p.is::<Kill>() {
                let text = panic_text(&*p);
                if tid == 0 {
                    st.fail(text);
                } else if st.cfg.bg_panic_fails {
                    st.fail(format!("thread {} panicked: {}", tid, text));
                }
            }
        }
        st.th[tid].run = Run::Done;
        st.changed();
        for t in &mut st.th {
            if let Run::Wait(a, _) = t.run {
                if a == done && done != 0 {
                    t.run = Run::Ready;
                }
            }
        }
        if tid == 0 {
            st.finished = true;
        }
        if tid == 0 || st.aborting || st.kill_watch {
            ex.ctl.notify_all();
            return;
        }
        if st.crashing {
            // back to the one that is clearing up: the driver
            st.th[0].run = Run::Ready;
            st.cur = 0;
            st.th[0].cv.notify_all();
            return;
        }
        match st.next(None) {
            Some(to) if !st.aborting => {
                st.cur = to;
                st.th[to].cv.notify_all();
            }
            Some(_) => ex.ctl.notify_all(),
            None => {
                st.fail("deadlock: every remaining thread waits for ever".into());
                ex.ctl.notify_all();
            }
        }
    }));
}

// ---- what the driver of an execution can call ----

/// The calling thread looks at something without changing it.
pub fn poll(patience: u32) {
    if let Some(c) = active() {
        c.poll(patience)
    }
}

pub fn choose(n: usize) -> usize {
    let c = cur().expect("choose outside an execution");
    let mut st = c.ex.lock();
    let r = st.choose(n);
    if st.aborting {
        c.give_up(st);
    }
    r
}

/// Turns the exploration of thread schedules on or off (off: the current thread goes on until it
/// blocks, then the lowest-numbered runnable thread).
pub fn sched(on: bool) {
    if let Some(c) = cur() {
        c.ex.lock().sched_on = on
    }
}

pub fn faults(on: bool) {
    if let Some(c) = cur() {
        c.ex.lock().faults_on = on
    }
}

pub fn crashes(on: bool) {
    if let Some(c) = cur() {
        c.ex.lock().crash_on = on
    }
}

pub fn faults_used() -> u32 {
    cur().map_or(0, |c| c.ex.lock().faulted)
}

pub fn sleep_ms(ms: u64) {
    cur().unwrap().sleep(Duration::from_millis(ms))
}

pub fn now_ms() -> u64 {
    cur().unwrap().now_ns() / 1_000_000
}

/// Sets the virtual clock (only forwards; used by drivers that start from a given time).
pub fn set_clock_ms(ms: u64) {
    let c = cur().unwrap();
    let mut st = c.ex.lock();
    st.clock_ns = ms * 1_000_000;
}

pub fn note(f: impl FnOnce() -> String) {
    if let Some(c) = cur() {
        let on = c.ex.lock().notes_on;
        if on {
            let s = f();
            c.ex.lock().notes.push(s);
        }
    }
}

/// Part of what this execution observed; the explorer counts distinct ones.
pub fn outcome(s: String) {
    if let Some(c) = cur() {
        c.ex.lock().outcome.push(s)
    }
}

/// The directory of this execution.
pub fn root() -> PathBuf {
    let c = cur().unwrap();
    if !c.ex.rooted.swap(true, SeqCst) {
        std::fs::create_dir_all(&c.ex.root).expect("cannot make a scratch directory");
    }
    c.ex.root.clone()
}

/// Turns slow calls and late wake-ups on or off.
pub fn slow(on: bool) {
    if let Some(c) = cur() {
        c.ex.lock().slow_on = on
    }
}

pub fn slows_used() -> u32 {
    cur().map_or(0, |c| c.ex.lock().slowed)
}

/// A point where time passes if the explorer decides so.
pub fn lag(what: &'static str) {
    let c = match cur() {
        None => return,
        Some(c) => c,
    };
    let mut st = c.ex.lock();
    if c.must_die(&st) || !st.slow_on || st.slowed >= st.cfg.slows {
        return;
    }
    let ms: Vec<u64> = st.cfg.slow.iter().cloned().filter(|m| *m > 0).collect();
    let k = st.choose(1 + ms.len());
    if st.aborting {
        c.give_up(st);
        return;
    }
    if k == 0 {
        return;
    }
    st.slowed += 1;
    if st.notes_on {
        st.notes.push(format!("SLOW by {} ms: {}", ms[k - 1], what));
    }
    drop(st);
    c.sleep(Duration::from_millis(ms[k - 1]));
}

/// A fault point: true when the explorer decides that the operation fails.
pub fn fault(what: &'static str) -> bool {
    let c = match cur() {
        None => return false,
        Some(c) => c,
    };
    lag(what);
    let mut st = c.ex.lock();
    if c.must_die(&st) || !st.faults_on || st.faulted >= st.cfg.faults {
        return false;
    }
    let k = st.choose(2);
    if st.aborting {
        c.give_up(st);
        return false;
    }
    if k == 1 {
        st.faulted += 1;
        if st.notes_on {
            st.notes.push(format!("FAULT in {}", what));
        }
    }
    k == 1
}

/// A crash point: does not return when the explorer decides that the process dies here.
/// With `cuts` > 1, returns Some(k) in case the process is to die *during* the operation, having
/// done part k of it: the caller does that part and then calls `die`.
pub fn crash_point(what: &'static str, cuts: usize) -> Option<usize> {
    let c = cur()?;
    let mut st = c.ex.lock();
    if c.must_die(&st) || !st.crash_on || st.session.is_none() || st.crashed >= st.cfg.crashes {
        return None;
    }
    let k = st.choose(1 + cuts.max(1));
    if st.aborting {
        c.give_up(st);
        return None;
    }
    if k == 0 {
        return None;
    }
    st.crashed += 1;
    if st.notes_on {
        st.notes.push(format!("CRASH at {} (part {})", what, k - 1));
    }
    drop(st);
    if k == 1 {
        die()
    }
    Some(k - 1)
}

pub fn die() {
    let c = cur().unwrap();
    c.ex.lock().crashing = true;
    kill();
}

pub enum End<R> {
    Done(R),
    Crashed,
}

/// The execution's own copies of the locks, atomics and one-time cells that are statics of the code under
/// test: each life of a process starts with fresh ones, as their constant initialisers make them.
#[derive(Default)]
struct Statics {
    now: HashMap<usize, (usize, std::alloc::Layout)>,
    old: Vec<(usize, std::alloc::Layout)>,
}

impl Statics {
    fn forget(&mut self) {
        let now = std::mem::take(&mut self.now);
        self.old.extend(now.into_values());
    }
}

impl Drop for Statics {
    fn drop(&mut self) {
        self.forget();
        // the bytes only: what they own stays, since nobody may be left to use it, nor to miss it
        for (p, l) in &self.old {
            unsafe { std::alloc::dealloc(*p as *mut u8, *l) }
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// `p` itself, or, if it is a static and this is a controlled execution, the execution's own copy.
pub fn own<T: ?Sized>(p: &T) -> &T {
    let a = p as *const T as *const u8 as usize;
    let (lo, hi) = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
    if a < lo || a >= hi || std::mem::size_of_val(p) == 0 {
        return p;
    }
    let c = match cur() {
        Some(c) => c,
        None => return p,
    };
    let mut s = c.ex.statics.lock().unwrap_or_else(|e| e.into_inner());
    let &mut (q, _) = s.now.entry(a).or_insert_with(|| {
        let l = std::alloc::Layout::for_value(p);
        unsafe {
            let q = std::alloc::alloc(l);
            std::ptr::copy_nonoverlapping(a as *const u8, q, l.size());
            (q as usize, l)
        }
    });
    unsafe { &*(p as *const T).wrapping_byte_add(q.wrapping_sub(a)) }
}

/// Runs `f` as the life of one process: when it returns, or when a crash point kills it, every
/// thread it started is killed, without any further effect, and what it had not yet made durable is
/// up to the caller (`sled::after_crash`, `fs::after_crash`).
pub fn session<R>(f: impl FnOnce() -> R) -> End<R> {
    let c = cur().expect("session outside an execution");
    assert_eq!(c.tid, 0, "only the driver runs sessions");
    {
        let mut st = c.ex.lock();
        st.session = Some(st.th.len());
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut st = c.ex.lock();
    if st.aborting {
        drop(st);
        match r {
            Err(p) => resume_unwind(p),
            Ok(_) => resume_unwind(Box::new(Kill)),
        }
    }
    let crashed = st.crashing;
    st.crashing = true;
    let first = st.session.unwrap();
    for t in first..st.th.len() {
        if st.th[t].run != Run::Done {
            st.th[t].run = Run::Ready;
            st.th[0].run = Run::Wait(1, None);
            st = c.switch(st, t);
            st.th[0].run = Run::Ready;
        }
    }
    st.crashing = false;
    st.session = None;
    drop(st);
    c.ex.statics.lock().unwrap_or_else(|e| e.into_inner()).forget();
    match r {
        Ok(r) if !crashed => End::Done(r),
        Ok(_) => End::Crashed,
        Err(p) if p.is::<Kill>() => End::Crashed,
        Err(p) => resume_unwind(p),
    }
}

/// Runs `f`, and says whether (and how) it panicked.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let quiet = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(quiet));
    match r {
        Ok(r) => Ok(r),
        Err(p) if p.is::<Kill>() => resume_unwind(p),
        Err(p) => Err(panic_text(&*p)),
    }
}

// ---- running and exploring ----

pub fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                let msg = if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
                let at = info
                    .location()
                    .map(|l| {
                        let f = l.file();
                        let f = f.rfind("/src/").map_or(f, |i| &f[i + 1..]);
                        format!(" (at {}:{})", f, l.line())
                    })
                    .unwrap_or_default();
                LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("panic: {}{}", msg, at)));
            } else {
                old(info)
            }
        }));
    });
}

pub struct Out {
    pub trace: Vec<Choice>,
    pub failure: Option<String>,
    pub notes: Vec<String>,
    pub outcome: String,
    pub steps: u64,
    pub threads: usize,
    /// it did not follow the choices it was given
    pub diverged: bool,
}

type Stuck = Box<dyn Fn(&str, String, Vec<Choice>) + Send>;
static ON_STUCK: Mutex<Option<Stuck>> = Mutex::new(None);

/// What to do about an execution that never ends: `f(scenario, why, choices)` reports it; the process
/// cannot go on after that.
pub fn on_stuck(f: impl Fn(&str, String, Vec<Choice>) + Send + 'static) {
    *ON_STUCK.lock().unwrap() = Some(Box::new(f));
}

fn stuck(why: String, trace: Vec<Choice>) -> ! {
    let g = ON_STUCK.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(f) = &*g {
        let name = SCENARIO.with(|s| s.borrow().clone());
        f(&name, why, trace);
    } else {
        eprintln!("{}", why);
    }
    std::process::exit(1)
}

thread_local! {
    static SCENARIO: RefCell<String> = const { RefCell::new(String::new()) };
}

static SEQ: AtomicU64 = AtomicU64::new(0);

/// Runs one execution whose first choices are `prefix`.
pub fn run(cfg: Cfg, prefix: Vec<Choice>, notes: bool, f: Arc<dyn Fn() + Send + Sync>) -> Out {
    install_hook();
    let root = scratch().join(format!("e{}", SEQ.fetch_add(1, SeqCst)));
    let ex = Arc::new(Exec {
        m: Mutex::new(St {
            th: vec![Th {
                run: Run::Ready,
                cv: Arc::new(Condvar::new()),
                timed_out: false,
                polled: 0,
                stall_left: 0,
                looked_at: 0,
                looks: 0,
            }],
            cur: 0,
            clock_ns: START_MS * 1_000_000,
            prefix,
            trace: vec![],
            cfg,
            preempted: 0,
            faulted: 0,
            crashed: 0,
            steps: 0,
            failure: None,
            aborting: false,
            session: None,
            crashing: false,
            sched_on: cfg.sched_from_start,
            faults_on: false,
            crash_on: false,
            stalled: false,
            slow_on: false,
            slowed: 0,
            spins: 0,
            gen: 1,
            notes_on: notes,
            notes: vec![],
            outcome: vec![],
            finished: false,
            kill_watch: false,
            diverged: false,
        }),
        ctl: Condvar::new(),
        root: root.clone(),
        rooted: AtomicBool::new(false),
        fs: Mutex::new(Default::default()),
        objects: Mutex::new(HashMap::new()),
        statics: Mutex::new(Statics::default()),
    });
    start(ex.clone(), 0, Box::new(move || f()), 0);
    let mut st = ex.lock();
    let mut seen = 0;
    let mut last = Instant::now();
    while !st.finished && !st.aborting {
        st = ex
            .ctl
            .wait_timeout(st, Duration::from_secs(2))
            .unwrap_or_else(|e| e.into_inner())
            .0;
        if st.steps != seen {
            seen = st.steps;
            last = Instant::now();
        } else if last.elapsed() > Duration::from_secs(60) {
            // a controlled thread is stuck in something the scheduler does not own
            let why = format!("no end: a thread has been busy for {} s without reaching a synchronisation, clock or file-system operation", last.elapsed().as_secs());
            stuck(why, st.trace.clone());
        }
    }
    // the execution is over: end its other threads, one at a time
    st.aborting = true;
    st.kill_watch = true;
    let mut i = 0;
    while i < st.th.len() {
        if st.th[i].run != Run::Done {
            st.cur = i;
            st.th[i].cv.notify_all();
            let t0 = Instant::now();
            while st.th[i].run != Run::Done {
                st = ex
                    .ctl
                    .wait_timeout(st, Duration::from_secs(2))
                    .unwrap_or_else(|e| e.into_inner())
                    .0;
                if t0.elapsed() > Duration::from_secs(60) {
                    stuck("no end: a thread goes on for ever once the process was killed".into(), st.trace.clone());
                }
            }
        }
        i += 1;
    }
    let out = Out {
        trace: std::mem::take(&mut st.trace),
        failure: st.failure.take(),
        notes: std::mem::take(&mut st.notes),
        outcome: st.outcome.join("; "),
        steps: st.steps,
        threads: st.th.len(),
        diverged: st.diverged,
    };
    drop(st);
    ex.objects.lock().unwrap().clear();
    if ex.rooted.load(SeqCst) {
        let _ = std::fs::remove_dir_all(&root);
    }
    out
}

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

/// The directory that holds everything executions write; removed by [`cleanup`].
pub fn scratch() -> PathBuf {
    let mut s = SCRATCH.lock().unwrap();
    if s.is_none() {
        // a program that a check starts keeps to the check's own directory
        let p = std::env::var_os("MONOLITH_MC_SCRATCH").map(PathBuf::from).filter(|p| p.is_dir());
        let p = p.unwrap_or_else(|| scratch_base().join(format!("monolith-mc-{}", std::process::id())));
        std::fs::create_dir_all(&p).expect("cannot make the scratch directory");
        *s = Some(p);
    }
    s.clone().unwrap()
}

pub fn scratch_base() -> PathBuf {
    if std::path::Path::new("/dev/shm").is_dir() {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    }
}

pub fn cleanup() {
    if let Some(p) = SCRATCH.lock().unwrap().take() {
        let _ = std::fs::remove_dir_all(p);
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    /// nodes of the choice tree
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeSet<String>,
    pub max_choices: usize,
    pub max_threads: usize,
    pub capped: bool,
    /// executions that did not follow the choices they were given: their alternatives are not explored
    pub diverged: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub why: String,
    pub choices: Vec<Choice>,
    pub notes: Vec<String>,
    pub reproduced: bool,
}

pub struct Scenario {
    pub name: String,
    pub cfg: Cfg,
    pub body: Arc<dyn Fn() + Send + Sync>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, cfg: Cfg, f: impl Fn() + Send + Sync + 'static) -> Self {
        Scenario {
            name: name.into(),
            cfg,
            body: Arc::new(f),
        }
    }
}

/// Explores every scenario completely (up to `deadline`), on `workers` OS threads; stops early once
/// violations were found.
pub fn explore(
    scenarios: &[Scenario],
    workers: usize,
    deadline: Instant,
) -> (Stats, Vec<(String, Stats)>, Vec<Violation>) {
    struct Shared {
        work: Vec<(usize, Vec<Choice>)>,
        busy: usize,
    }
    let sh = Mutex::new(Shared {
        work: (0..scenarios.len()).rev().map(|i| (i, vec![])).collect(),
        busy: 0,
    });
    let cv = Condvar::new();
    let stats: Vec<Mutex<Stats>> = scenarios.iter().map(|_| Mutex::new(Stats::default())).collect();
    let bad: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let dropped = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let (i, prefix) = {
                    let mut g = sh.lock().unwrap();
                    loop {
                        if stop.load(SeqCst) {
                            return;
                        }
                        if let Some(w) = g.work.pop() {
                            g.busy += 1;
                            break w;
                        }
                        if g.busy == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    }
                };
                let sc = &scenarios[i];
                let at = prefix.len();
                SCENARIO.with(|s| *s.borrow_mut() = sc.name.clone());
                let out = run(sc.cfg, prefix, false, sc.body.clone());
                let mut more: Vec<(usize, Vec<Choice>)> = vec![];
                let lost = out.diverged || out.trace.len() < at;
                if !lost {
                    for p in at..out.trace.len() {
                        for alt in 1..out.trace[p].n {
                            let mut v = out.trace[..p].to_vec();
                            v.push(Choice {
                                n: out.trace[p].n,
                                c: alt,
                            });
                            more.push((i, v));
                        }
                    }
                }
                {
                    let mut t = stats[i].lock().unwrap();
                    t.executions += 1;
                    t.diverged += lost as u64;
                    t.states += 1 + (out.trace.len() - at.min(out.trace.len())) as u64;
                    t.transitions += out.steps;
                    t.max_choices = t.max_choices.max(out.trace.len());
                    t.max_threads = t.max_threads.max(out.threads);
                    if t.outcomes.len() < 10_000 {
                        t.outcomes.insert(out.outcome.clone());
                    }
                }
                if let Some(why) = out.failure {
                    // replay it, with notes
                    let mut again = run(sc.cfg, out.trace.clone(), true, sc.body.clone());
                    for _ in 0..4 {
                        if again.failure.is_some() {
                            break;
                        }
                        again = run(sc.cfg, out.trace.clone(), true, sc.body.clone());
                    }
                    let same = again.failure.is_some();
                    let mut b = bad.lock().unwrap();
                    b.push(Violation {
                        scenario: sc.name.clone(),
                        why,
                        choices: out.trace,
                        notes: again.notes,
                        reproduced: same,
                    });
                    if b.len() >= 8 {
                        stop.store(true, SeqCst);
                    }
                    // one counterexample per scenario is enough
                    drop(b);
                    let mut g = sh.lock().unwrap();
                    g.work.retain(|w| w.0 != i);
                    g.busy -= 1;
                    cv.notify_all();
                    continue;
                }
                let late = Instant::now() > deadline;
                let mut g = sh.lock().unwrap();
                if late {
                    dropped.fetch_add(more.len() + g.work.len(), SeqCst);
                    for (k, _) in more.iter().chain(g.work.iter()) {
                        stats[*k].lock().unwrap().capped = true;
                    }
                    g.work.clear();
                } else {
                    g.work.append(&mut more);
                }
                g.busy -= 1;
                cv.notify_all();
            });
        }
    });
    let mut all = Stats::default();
    let mut per = vec![];
    for (i, s) in stats.into_iter().enumerate() {
        let s = s.into_inner().unwrap();
        all.executions += s.executions;
        all.states += s.states;
        all.transitions += s.transitions;
        all.max_choices = all.max_choices.max(s.max_choices);
        all.max_threads = all.max_threads.max(s.max_threads);
        all.capped |= s.capped;
        all.diverged += s.diverged;
        for o in &s.outcomes {
            if all.outcomes.len() < 100_000 {
                all.outcomes.insert(o.clone());
            }
        }
        per.push((scenarios[i].name.clone(), s));
    }
    (all, per, bad.into_inner().unwrap())
}
