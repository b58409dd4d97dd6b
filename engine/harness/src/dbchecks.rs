//! Checks of the whole database.
use crate::core::Report;
use crate::db::*;
use crate::oracle::*;
use monolith::time_point::TimePoint;
use monolith::utils::encode_chunk_dir;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vstd::mc::{self, Cfg, End, Scenario};

pub const CHUNK: u64 = 10_000;
const PD: [&str; 1] = ["pd"];

pub struct Rig {
    pub dir: PathBuf,
    pub kind: Kind,
    pub hist: Hist,
    last: BTreeMap<(u64, Set), u64>,
    n: usize,
    /// values are chosen among few
    pub few: bool,
    pub t0: u64,
    /// the length of windows
    pub chunk: u64,
}

impl Rig {
    pub fn new(kind: Kind) -> Rig {
        Rig::at(kind, "db")
    }

    pub fn at(kind: Kind, name: &str) -> Rig {
        let dir = mc::root().join(name);
        std::fs::create_dir_all(&dir).unwrap();
        Rig {
            dir,
            kind,
            hist: Hist::default(),
            last: BTreeMap::new(),
            n: 0,
            few: false,
            t0: mc::now_ms(),
            chunk: CHUNK,
        }
    }

    pub fn open(&self) -> Arc<dyn Base> {
        match open(&self.dir, self.kind, self.chunk, &PD) {
            Ok(d) => d,
            Err(e) => panic!("the database does not open: {}", e),
        }
    }

    pub fn window(&self) -> (u64, u64) {
        *windows(&self.dir).last().expect("no chunk directory")
    }

    fn takes(&self, w: (u64, u64), s: &Set, t: u64) -> bool {
        t >= w.0 && t <= w.1 && !(self.kind.tikv_storage && self.last.get(&(w.0, s.clone())).map_or(false, |l| *l >= t))
    }

    fn took(&mut self, w: (u64, u64), s: &Set, t: u64) {
        let e = self.last.entry((w.0, s.clone())).or_insert(t);
        *e = (*e).max(t);
    }

    pub fn next_value(&mut self) -> f64 {
        self.n += 1;
        if self.few {
            return PALETTE[mc::choose(PALETTE.len())];
        }
        value(self.n)
    }

    /// A single write, whose answer has to be right.
    pub fn put(&mut self, db: &dyn Base, l: &[(&str, &str)], t: u64) {
        self.put_in(db, l, t, self.window())
    }

    pub fn put_in(&mut self, db: &dyn Base, l: &[(&str, &str)], t: u64, w: (u64, u64)) {
        let (s, v) = (set(l), self.next_value());
        let yes = self.takes(w, &s, t);
        let now = mc::now_ms();
        self.hist.begin(&s, t, v, now);
        let r = db.put(labels(l), TimePoint::new(t, v));
        let t0 = self.t0;
        mc::note(|| format!("write {} {}={} -> {:?}", show_set(&s), rel(t, t0), v, r));
        match (r, yes) {
            (Ok(()), true) => {
                self.hist.ack(&s, t, v, mc::now_ms());
                self.took(w, &s, t);
            }
            (Err(_), false) => self.hist.refuse(&s, t, v),
            (Ok(()), false) => panic!(
                "a write at {} was accepted, though the open window is {}..{}{}",
                rel(t, t0),
                rel(w.0, t0),
                rel(w.1, t0),
                if t >= w.0 && t <= w.1 { " and the series has a later sample" } else { "" }
            ),
            (Err(e), true) => panic!(
                "a write at {} in the open window {}..{} failed: {}",
                rel(t, t0),
                rel(w.0, t0),
                rel(w.1, t0),
                e
            ),
        }
    }

    /// A batch: what is outside the open window is left out silently.
    pub fn put_many(&mut self, db: &dyn Base, l: &[(&str, &str)], ts: &[u64]) {
        let (w, s) = (self.window(), set(l));
        let t0 = self.t0;
        let mut pts = vec![];
        let mut all = true;
        let mut eff = vec![];
        for t in ts {
            let v = self.next_value();
            pts.push(TimePoint::new(*t, v));
            if *t < w.0 || *t > w.1 {
                continue;
            }
            if self.takes(w, &s, *t) {
                self.took(w, &s, *t);
                self.hist.begin(&s, *t, v, mc::now_ms());
                eff.push((*t, v));
            } else {
                all = false;
            }
        }
        let r = db.put_many(labels(l), pts);
        let shown: Vec<String> = ts.iter().map(|t| rel(*t, t0)).collect();
        mc::note(|| format!("write {} at {:?} -> {:?}", show_set(&s), shown, r));
        if r.is_ok() != all {
            panic!(
                "a batch at {:?} with the open window {}..{} was answered {:?}",
                shown,
                rel(w.0, t0),
                rel(w.1, t0),
                r
            )
        }
        for (t, v) in eff {
            self.hist.ack(&s, t, v, mc::now_ms());
        }
    }

    pub fn check(&self, db: &dyn Base, when: &str) {
        check_all(db, &self.hist, self.t0, self.window(), when)
    }

    /// As `check`, with few questions.
    pub fn brief(&self, db: &dyn Base, when: &str) {
        let w = self.window();
        full(db, &self.hist, self.t0, when);
        ask(db, &self.hist, SELECTORS[0], w, self.t0, when);
        ask(db, &self.hist, SELECTORS[3], (0, w.0 - 1), self.t0, when);
    }
}

impl Rig {
    /// Every selector over all times and over each window: to be asked between writes, where an
    /// answer must not depend on what was asked before.
    pub fn often(&self, db: &dyn Base, when: &str) {
        let w = self.window();
        // some of it over, and still open for writes
        let mut ranges = vec![(0, u64::MAX), (0, mc::now_ms() - 1), (0, w.0), (w.0, self.t0 + 5000)];
        ranges.extend(windows(&self.dir));
        for (n, r) in ranges.into_iter().enumerate() {
            for (k, sel) in SELECTORS.iter().enumerate() {
                if n == 0 || k % 4 == n % 2 {
                    ask(db, &self.hist, sel, r, self.t0, when);
                }
            }
        }
    }
}

fn print_state(db: &dyn Base, h: &Hist, base: u64) {
    let a = full(db, h, base, "at the end");
    mc::outcome(show_answer(&a, base));
}

// ---- D01: sequential histories ----

fn op_times(rig: &Rig) -> [u64; 6] {
    let w = rig.window();
    [w.0, rig.t0 + 5000, w.0 + 7, w.1, w.1 + 1, w.0 - 1]
}

/// One operation out of `OPS`; true when the process is to restart.
pub fn history_op(rig: &mut Rig, db: &dyn Base, small: bool) -> bool {
    let w = rig.window();
    let singles = if small { 2 * 4 } else { 3 * 6 };
    let k = mc::choose(singles + if small { 3 } else { 6 });
    if k < singles {
        let ts = op_times(rig);
        let (s, t) = if small { (k % 2 * 2, [0, 1, 3, 4][k / 2]) } else { (k % 3, k / 3) };
        rig.put(db, SERIES[s], ts[t]);
        return false;
    }
    match (k - singles, small) {
        (0, _) => {
            mc::note(|| "wait for the next roll-over".into());
            mc::sleep_ms(CHUNK + 1);
        }
        (1, _) => return true,
        (2, true) => rig.put_many(db, SERIES[0], &[w.0 - 1, w.0 + 2, w.1 + 1, w.1]),
        (2, false) => rig.put_many(db, SERIES[0], &[w.0 + 3, w.1]),
        (3, _) => rig.put_many(db, SERIES[0], &[w.1 - 1, w.0 + 1]),
        (4, _) => rig.put_many(db, SERIES[0], &[w.0 - 1, w.0 + 2, w.1 + 1]),
        _ => rig.put_many(db, SERIES[1], &[w.0 + 3, w.1]),
    }
    false
}

fn history(kind: Kind, depth: usize, small: bool) {
    let mut rig = Rig::new(kind);
    let mut left = depth;
    let mut first = true;
    while first || left > 0 {
        first = false;
        let end = mc::session(|| {
            let db = rig.open();
            if small {
                rig.often(&*db, "on opening");
            }
            while left > 0 {
                left -= 1;
                if history_op(&mut rig, &*db, small) {
                    mc::note(|| "restart".into());
                    mc::sleep_ms(1200);
                    return true;
                }
                if small {
                    mc::sleep_ms(CHUNK / 5);
                    rig.often(&*db, "on the way");
                }
            }
            rig.check(&*db, "at the end");
            print_state(&*db, &rig.hist, rig.t0);
            false
        });
        match end {
            End::Done(again) => {
                sled::after_crash();
                mc::sleep_ms(7);
                if !again {
                    return;
                }
                if left == 0 {
                    mc::session(|| {
                        let db = rig.open();
                        rig.check(&*db, "after the restart");
                        print_state(&*db, &rig.hist, rig.t0);
                    });
                }
            }
            End::Crashed => panic!("ENGINE: crash without a crash point"),
        }
    }
}

/// Every batch of up to so many samples of one series, times repeated and in any order, into a window with and
/// without something in it, and then the same again in the next window.
fn batches(kind: Kind, most: usize) {
    let mut rig = Rig::new(kind);
    mc::session(|| {
        let db = rig.open();
        let prior = mc::choose(3);
        let picks: Vec<usize> = (0..1 + mc::choose(most)).map(|_| mc::choose(5)).collect();
        for _ in 0..2 {
            let w = rig.window();
            if prior > 0 {
                rig.put(&*db, SERIES[0], w.0 + [0, 3, 5][prior]);
            }
            let ts: Vec<u64> = picks.iter().map(|p| [w.0 + 3, w.0 + 5, w.1, w.0, w.1 + 1][*p]).collect();
            rig.put_many(&*db, SERIES[0], &ts);
            rig.check(&*db, "after the batch");
            mc::sleep_ms(CHUNK + 1);
        }
        rig.brief(&*db, "at the end");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

/// One series with few values, equal ones among them, through roll-overs and restarts.
fn few_values(kind: Kind, depth: usize) {
    let mut rig = Rig::new(kind);
    rig.few = true;
    let mut left = depth;
    let mut again = true;
    while again {
        mc::session(|| {
            let db = rig.open();
            again = false;
            while left > 0 && !again {
                left -= 1;
                let w = rig.window();
                let step = (depth - left) as u64;
                match mc::choose(4) {
                    0 => rig.put(&*db, SERIES[0], w.0 + 10 * step),
                    1 => rig.put(&*db, SERIES[0], w.1),
                    2 => mc::sleep_ms(CHUNK + 1),
                    _ => {
                        mc::note(|| "restart".into());
                        mc::sleep_ms(1200);
                        again = true;
                    }
                }
            }
            if !again {
                rig.check(&*db, "at the end");
                print_state(&*db, &rig.hist, rig.t0);
            }
        });
        sled::after_crash();
        mc::sleep_ms(7);
    }
}

/// The same question again and again, with nothing else asked in between: what it was answered before must
/// not show in the answer.
fn one_question(kind: Kind, depth: usize) {
    let mut rig = Rig::new(kind);
    let t = rig.t0;
    let ranges = [(0, u64::MAX), (0, t), (t, t), (t, t + 5000), (0, t + CHUNK), (t + 5000, t + 2 * CHUNK)];
    let (sel, range) = (SELECTORS[[0, 1, 3, 4][mc::choose(4)]], ranges[mc::choose(ranges.len())]);
    let mut left = depth;
    while left > 0 {
        let again = mc::session(|| {
            let db = rig.open();
            loop {
                let a = ask(&*db, &rig.hist, sel, range, t, "asked again");
                if left == 0 {
                    mc::outcome(show_answer(&a, t));
                    return;
                }
                left -= 1;
                if history_op(&mut rig, &*db, true) {
                    mc::note(|| "restart".into());
                    mc::sleep_ms(1200);
                    return;
                }
                mc::sleep_ms(CHUNK / 5);
            }
        });
        if let End::Crashed = again {
            panic!("ENGINE: crash without a crash point")
        }
        sled::after_crash();
        mc::sleep_ms(7);
    }
}

pub fn d01(r: &mut Report) {
    r.rule("All sequences of the given depth over {single write: 3 series x 6 timestamps around the open window, batch write in and out of order and across the window's ends, wait for the roll-over, restart}, on each pair of backends; after each, 8 selectors over all ranges between, at and around the stored timestamps, compared with a map of what was acknowledged; longer histories over fewer operations with every selector asked between all operations, and histories of one series with four values, equal ones among them; every batch of up to four (five) samples out of five times, in any order and repeated. Also every count up to a bound of series, samples of a series and chunks.");
    r.assume("the sled model (atomic map, prefix durability), bound to the real sled by conformance replay; the TiKV model (linearizable map)");
    r.assume("time is virtual; the clock does not go backwards");
    let mut scs = vec![];
    for kind in KINDS {
        for depth in 1..=r.pick(3, 3) {
            scs.push(Scenario::new(format!("histories/{}/{}", kind.name(), depth), Cfg::default(), move || history(kind, depth, false)));
        }
    }
    r.explore(scs);
    let depth = r.pick(4, 5);
    let mut scs = vec![];
    for kind in &KINDS[..r.pick(2, 4)] {
        let kind = *kind;
        scs.push(Scenario::new(format!("long-histories/{}/{}", kind.name(), depth), Cfg::default(), move || history(kind, depth, true)));
    }
    r.explore(scs);
    let (few, depth) = (r.pick(2, 3), r.pick(3, 4));
    r.explore(KINDS.iter().enumerate().map(|(n, kind)| {
        let (kind, depth) = (*kind, if n == 0 { depth } else { few });
        Scenario::new(format!("one-question/{}/{}", kind.name(), depth), Cfg::default(), move || one_question(kind, depth))
    }).collect());
    let depth = r.pick(4, 5);
    r.explore(KINDS.iter().map(|kind| {
        let kind = *kind;
        Scenario::new(format!("few-values/{}/{}", kind.name(), depth), Cfg::default(), move || few_values(kind, depth))
    }).collect());
    let most = r.pick(4, 5);
    r.explore(KINDS.iter().map(|kind| {
        let kind = *kind;
        Scenario::new(format!("batches/{}/{}", kind.name(), most), Cfg::default(), move || batches(kind, most))
    }).collect());
    delays(r);
    crate::growth::databases(r);
}

// ---- D02: roll-over under every schedule ----

/// What the concurrent operations of one execution did, in the order of their logical times.
struct Log {
    clock: u64,
    hist: Hist,
    /// acknowledged at (logical time), series, timestamp
    acks: Vec<(u64, Set, u64)>,
    /// logical start and end of each query, and its answer
    asked: Vec<(u64, u64, Answer)>,
    /// logical start and end of each single write, its time, and whether it was accepted
    puts: Vec<(u64, u64, u64, bool)>,
    /// logical start and end of each batch, series, the times in it
    batches: Vec<(u64, u64, Set, Vec<u64>)>,
}

fn concurrent_put(db: &dyn Base, log: &Mutex<Log>, l: &[(&str, &str)], t: u64, v: f64, base: u64) -> bool {
    let s = set(l);
    let start = {
        let mut g = log.lock().unwrap();
        g.hist.begin(&s, t, v, mc::now_ms());
        g.clock += 1;
        g.clock
    };
    let r = db.put(labels(l), TimePoint::new(t, v));
    let mut g = log.lock().unwrap();
    mc::note(|| format!("write {} {}={} -> {:?}", show_set(&s), rel(t, base), v, r));
    g.clock += 1;
    let c = g.clock;
    g.puts.push((start, c, t, r.is_ok()));
    if r.is_ok() {
        g.hist.ack(&s, t, v, mc::now_ms());
        g.acks.push((c, s, t));
        true
    } else {
        g.hist.refuse(&s, t, v);
        false
    }
}

/// A batch with samples of the old window and of the new one: it lands in one of them.
fn concurrent_batch(db: &dyn Base, log: &Mutex<Log>, l: &[(&str, &str)], ts: &[u64], v: f64, base: u64) {
    let s = set(l);
    let start = {
        let mut g = log.lock().unwrap();
        for (k, t) in ts.iter().enumerate() {
            g.hist.begin(&s, *t, v + k as f64 / 8.0, mc::now_ms());
        }
        g.clock += 1;
        g.clock
    };
    let pts = ts.iter().enumerate().map(|(k, t)| TimePoint::new(*t, v + k as f64 / 8.0)).collect();
    let r = db.put_many(labels(l), pts);
    mc::note(|| format!("write {} at {:?} -> {:?}", show_set(&s), ts.iter().map(|t| rel(*t, base)).collect::<Vec<_>>(), r));
    if let Err(e) = r {
        panic!("a batch during the roll-over failed, though no call to the backend did: {}", e)
    }
    let mut g = log.lock().unwrap();
    g.clock += 1;
    let end = g.clock;
    g.batches.push((start, end, s, ts.to_vec()));
}

/// The writes tell whether the roll-over was before or after them; there has to be an instant for it.
fn check_instant(log: &Log, all: &Answer, old: (u64, u64), new: (u64, u64), base: u64) {
    let only = |t: u64| {
        let (o, n) = (t >= old.0 && t <= old.1, t >= new.0 && t <= new.1);
        if o == n {
            None
        } else {
            Some(n)
        }
    };
    // (start, end, the roll-over had happened, what)
    let mut ev = vec![];
    for (a, b, t, ok) in &log.puts {
        match only(*t) {
            Some(n) => ev.push((*a, *b, n == *ok, format!("the write at {} was {}", rel(*t, base), if *ok { "accepted" } else { "refused" }))),
            None if !ok => panic!(
                "the write at {} was refused, though both the window before the roll-over and the one after it contain it",
                rel(*t, base)
            ),
            None => {}
        }
    }
    for (a, b, s, ts) in &log.batches {
        let mut said: Option<bool> = None;
        for t in ts {
            let there = all.get(s).map_or(false, |p| p.iter().any(|x| x.0 == *t));
            if let Some(n) = only(*t) {
                if said.is_some() && said != Some(n == there) {
                    panic!(
                        "of a batch at {:?} that was acknowledged during the roll-over neither what the window before it contains is stored, nor what the one after it contains: there is {}",
                        ts.iter().map(|t| rel(*t, base)).collect::<Vec<_>>(),
                        show_answer(all, base)
                    )
                }
                said = Some(n == there);
            } else if !there {
                panic!("the sample at {} of an acknowledged batch is lost", rel(*t, base))
            }
        }
        if let Some(after) = said {
            ev.push((*a, *b, after, format!("a batch was stored {} the roll-over", if after { "after" } else { "before" })));
        }
    }
    for x in ev.iter().filter(|x| x.2) {
        for y in ev.iter().filter(|y| !y.2) {
            if x.1 < y.0 {
                panic!("the roll-over did not happen at one instant: first {}, then {}", x.3, y.3)
            }
        }
    }
}

/// A query of everything matching a=1; everything acknowledged before it started has to be there.
fn concurrent_query(db: &dyn Base, log: &Mutex<Log>, base: u64) {
    let (start, before) = {
        let mut g = log.lock().unwrap();
        g.clock += 1;
        (g.clock, g.acks.clone())
    };
    let r = db.query(labels(&[("a", "1")]), 0, u64::MAX);
    let mut g = log.lock().unwrap();
    g.clock += 1;
    let end = g.clock;
    let got = match r {
        Ok(g) => g,
        Err(e) => panic!("a query during the roll-over failed: {}", e),
    };
    let a = match normal(&got) {
        Ok(a) => a,
        Err(e) => panic!("query during the roll-over: {}", e),
    };
    mc::note(|| format!("query -> {}", show_answer(&a, base)));
    // a write that was refused later may not have been seen: its effect is excluded by the final check
    for (_, s, t) in &before {
        if s.contains(&("a".into(), "1".into())) && !a.get(s).map_or(false, |p| p.iter().any(|x| x.0 == *t)) {
            panic!(
                "a query that started after the sample at {} of {} was acknowledged does not see it: {}",
                rel(*t, base),
                show_set(s),
                show_answer(&a, base)
            )
        }
    }
    for (s, p) in &a {
        let mut seen = None;
        for (t, _) in p {
            if seen == Some(*t) {
                panic!("a query during the roll-over returns the sample at {} of {} twice", rel(*t, base), show_set(s))
            }
            if seen > Some(*t) {
                panic!("a query during the roll-over returns samples out of order: {}", show_answer(&a, base))
            }
            seen = Some(*t);
        }
    }
    g.asked.push((start, end, a));
}

fn keys(a: &Answer) -> std::collections::BTreeSet<(Set, u64, u64)> {
    a.iter().flat_map(|(s, p)| p.iter().map(move |(t, v)| (s.clone(), *t, *v))).collect()
}

/// Queries may be put in an order, consistent with real time, in which nothing disappears.
fn check_queries(log: &Log, base: u64) {
    let q: Vec<_> = log.asked.iter().map(|(s, e, a)| (*s, *e, keys(a), a)).collect();
    for x in &q {
        for y in &q {
            if x.1 < y.0 && !x.2.is_subset(&y.2) {
                panic!(
                    "a sample seen by one query is gone in a later one: {} then {}",
                    show_answer(x.3, base),
                    show_answer(y.3, base)
                )
            }
            if !x.2.is_subset(&y.2) && !y.2.is_subset(&x.2) {
                panic!(
                    "two queries contradict each other on the order of the writes: {} and {}",
                    show_answer(x.3, base),
                    show_answer(y.3, base)
                )
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// series, 0: inside the old window, 1: the instant both windows share, 2: the new window
    Put(usize, u8),
    /// series; two samples of the old window, two of the new one
    Batch(usize),
    Query,
}

fn rollover(kind: Kind, threads: Vec<Vec<Act>>, rolls: u64) {
    let mut rig = Rig::new(kind);
    mc::session(|| {
        let db = rig.open();
        let t0 = rig.t0;
        for k in 0..rolls {
            let w = rig.window();
            rig.put(&*db, SERIES[0], w.0 + 1 + k);
            if k == 0 {
                rig.put(&*db, SERIES[1], w.0 + 2);
            }
            if k + 1 < rolls {
                mc::sleep_ms(CHUNK + 1);
            }
        }
        let (lo, hi) = rig.window();
        // wake at the very instant the roll-over is due
        let due = hi - (rolls - 1).min(1);
        mc::sleep_ms(due - mc::now_ms());
        let log = Arc::new(Mutex::new(Log {
            clock: 0,
            hist: std::mem::take(&mut rig.hist),
            acks: vec![],
            asked: vec![],
            puts: vec![],
            batches: vec![],
        }));
        mc::sched(true);
        let hs: Vec<_> = threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(n, acts)| {
                let (db, log) = (db.clone(), log.clone());
                vstd::thread::spawn(move || {
                    for (k, a) in acts.iter().enumerate() {
                        match a {
                            Act::Batch(s) => {
                                let d = 50 + 10 * n as u64 + 3 * k as u64;
                                concurrent_batch(&*db, &log, SERIES[*s], &[lo + d, lo + d + 1, hi + d, hi + d + 1], 500.0 + (10 * n + k) as f64, t0);
                            }
                            Act::Put(s, when) => {
                                let t = match when {
                                    0 => lo + 100 + 10 * n as u64 + k as u64,
                                    1 => hi,
                                    _ => hi + 100 + 10 * n as u64 + k as u64,
                                };
                                concurrent_put(&*db, &log, SERIES[*s], t, 100.0 + (10 * n + k) as f64, t0);
                            }
                            Act::Query => concurrent_query(&*db, &log, t0),
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        mc::sched(false);
        mc::sleep_ms(20);
        let log = Arc::try_unwrap(log).ok().expect("log in use").into_inner().unwrap();
        check_queries(&log, t0);
        rig.hist = log.hist.clone();
        rig.brief(&*db, "after the roll-over");
        let n = windows(&rig.dir).len() as u64;
        if n != rolls + 1 {
            panic!("there are {} chunks after {} roll-overs", n, rolls)
        }
        check_instant(&log, &full(&*db, &rig.hist, t0, "after the roll-over"), (lo, hi), rig.window(), t0);
        let seen: Vec<String> = log.asked.iter().map(|a| show_answer(&a.2, t0)).collect();
        mc::outcome(format!("{} / {:?}", seen.join(" | "), log.acks));
        // the new chunk takes writes
        let w = rig.window();
        rig.put(&*db, SERIES[1], w.1 - 1);
        rig.brief(&*db, "after the roll-over and another write");
    });
}

/// One call takes long, or one sleeper wakes up late, at any point from the opening on. Meanwhile writes may
/// be refused, but answers are right; once it is over, each roll-over is in time again.
fn delayed(kind: Kind, slow: [u64; 4]) {
    let mut rig = Rig::new(kind);
    let longest = *slow.iter().max().unwrap();
    mc::slow(true);
    mc::session(|| {
        let db = rig.open();
        let s = set(SERIES[0]);
        let mut last = 0;
        let mut calm = 0;
        let mut missed = 0;
        // as long as the last delay lasts; what is late then takes no time
        let settled = longest + 10;
        let mut since = mc::now_ms();
        let mut used = mc::slows_used();
        while calm < 14 {
            mc::sleep_ms(CHUNK / 4);
            if mc::slows_used() != used {
                used = mc::slows_used();
                since = mc::now_ms();
            }
            let t = mc::now_ms();
            if t - rig.t0 > 3 * CHUNK {
                // from here on nothing is slow that was not
                mc::slow(false);
            }
            let over = t - rig.t0 > 3 * CHUNK && t - since > settled;
            let v = rig.next_value();
            if t > last {
                rig.hist.begin(&s, t, v, t);
                let r = db.put(labels(SERIES[0]), TimePoint::new(t, v));
                mc::note(|| format!("write {} at {} -> {:?}", show_set(&s), rel(t, rig.t0), r));
                match r {
                    Ok(()) => rig.hist.ack(&s, t, v, mc::now_ms()),
                    Err(e) => {
                        rig.hist.refuse(&s, t, v);
                        missed += 1;
                        if over {
                            panic!("a write at {}, which is now, is refused ({}) {} ms after the only delay was over; the windows are {:?}", rel(t, rig.t0), e, t - since, windows(&rig.dir))
                        }
                    }
                }
                last = t;
            }
            if over {
                calm += 1;
            }
            full(&*db, &rig.hist, rig.t0, "while calls are slow");
        }
        let w = windows(&rig.dir);
        let due = (mc::now_ms() - rig.t0) / CHUNK + 1;
        if w.windows(2).any(|p| p[1].0 <= p[0].0) || w.len() as u64 > due || (w.len() as u64) < due - 1 - longest / CHUNK {
            panic!("after {} ms the windows are {:?}", mc::now_ms() - rig.t0, w)
        }
        rig.brief(&*db, "in the end");
        mc::outcome(format!("{} windows, {} refused", w.len(), missed));
    });
}

pub fn delays(r: &mut Report) {
    let slow = [CHUNK / 3, CHUNK + 7, 2 * CHUNK + CHUNK / 2, 0];
    let cfg = Cfg { slows: r.pick(1, 2), slow, sched_from_start: false, max_steps: 400_000, ..Cfg::default() };
    let scs = KINDS
        .iter()
        .map(|kind| {
            let kind = *kind;
            Scenario::new(format!("delays/{}", kind.name()), cfg, move || delayed(kind, slow))
        })
        .collect();
    r.explore(scs);
}

pub fn d02(r: &mut Report) {
    use Act::*;
    r.rule("Every schedule (within the preemption bound) of the chunk roll-over, its timer and client threads that write to the old window, to the instant both windows share, to the new window, and query; starting at the instant the roll-over is due; also with file-system calls that take up to several windows and with timers that wake up late: the windows still keep up with the clock.");
    r.assume("sequentially consistent memory; the scheduler owns every lock, channel, atomic, sleep and backend call");
    let shapes: Vec<(&str, Vec<Vec<Act>>, u64)> = vec![
        ("put-query", vec![vec![Put(0, 1), Query]], 1),
        ("query-query", vec![vec![Query, Query]], 1),
        ("put|query", vec![vec![Put(0, 0)], vec![Query]], 1),
        ("edge|query", vec![vec![Put(0, 1)], vec![Query, Query]], 1),
        ("new-series|query", vec![vec![Put(2, 1)], vec![Query]], 1),
        ("put-put|query", vec![vec![Put(0, 0), Put(1, 2)], vec![Query]], 1),
        ("query|query", vec![vec![Query], vec![Query]], 1),
        ("batch", vec![vec![Batch(0)]], 1),
        ("put-put", vec![vec![Put(0, 0), Put(1, 2)]], 1),
        ("batch|put", vec![vec![Batch(0)], vec![Put(1, 2)]], 1),
        ("second-roll", vec![vec![Put(0, 1)], vec![Query]], 2),
    ];
    let more: Vec<(&str, Vec<Vec<Act>>, u64)> = vec![
        ("put|put|query", vec![vec![Put(0, 0)], vec![Put(1, 1)], vec![Query]], 1),
        ("new|new|query", vec![vec![Put(1, 1)], vec![Put(1, 1)], vec![Query, Query]], 1),
        ("batch|batch-query", vec![vec![Batch(0)], vec![Batch(1), Query]], 1),
        ("put-query|put-query", vec![vec![Put(0, 1), Query], vec![Put(1, 2), Query]], 2),
    ];
    let all: Vec<_> = if r.thorough { shapes.into_iter().chain(more).collect() } else { shapes };
    let mut scs = vec![];
    for kind in [KINDS[0], KINDS[1]] {
        for (name, th, rolls) in &all {
            let small = th.len() == 1 || (kind == KINDS[0] && matches!(*name, "put|query" | "query|query"));
            let pb = match (r.thorough, small) {
                (false, false) => 1,
                (false, true) => 2,
                (true, true) => 3,
                (true, false) => 2,
            };
            let cfg = Cfg {
                preemptions: pb,
                sched_from_start: false,
                max_steps: 50_000,
                ..Cfg::default()
            };
            let (th, rolls) = (th.clone(), *rolls);
            scs.push(Scenario::new(format!("rollover/{}/{}", kind.name(), name), cfg, move || rollover(kind, th.clone(), rolls)));
        }
    }
    r.explore(scs);
    delays(r);
}

// ---- D04: clean restart ----

fn restarts(kind: Kind, sizes: &[u64], reverse: bool) {
    let mut rig = Rig::new(kind);
    let lives = sizes.len();
    vstd::fs::reverse_dirs(reverse);
    for life in 0..lives {
        rig.chunk = sizes[life];
        let size = rig.chunk;
        mc::session(|| {
            let db = rig.open();
            if life > 0 {
                rig.check(&*db, "after the restart");
            }
            if life + 1 == lives {
                print_state(&*db, &rig.hist, rig.t0);
            }
            let w = rig.window();
            // what is written in this life: near the start, now, and ahead of the clock
            match mc::choose(5) {
                0 => {}
                1 => rig.put(&*db, SERIES[0], w.0),
                2 => rig.put(&*db, SERIES[0], w.1),
                3 => {
                    rig.put(&*db, SERIES[2], w.0 + 3);
                    rig.put(&*db, SERIES[0], w.0 + size / 2);
                }
                _ => rig.put_many(&*db, SERIES[1], &[w.0 + 2, w.0 + size / 10 * 4, w.1 - 1]),
            }
            // and whether the chunk is rolled over before the end of the process
            match mc::choose(3) {
                0 => mc::sleep_ms(1100),
                1 => {
                    mc::sleep_ms(size + 1);
                    if mc::choose(2) == 1 {
                        let w = rig.window();
                        rig.put(&*db, SERIES[0], w.0 + 9);
                    }
                    mc::sleep_ms(1100);
                }
                _ => {
                    mc::sleep_ms(2 * size + 1);
                    mc::sleep_ms(1100);
                }
            }
            rig.brief(&*db, "before the restart");
        });
        sled::after_crash();
        // how long it is down
        match mc::choose(3) {
            0 => mc::sleep_ms(5),
            1 => mc::sleep_ms(CHUNK / 2),
            _ => mc::sleep_ms(10 * CHUNK),
        }
    }
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "after the last restart");
        let w = rig.window();
        rig.put(&*db, SERIES[0], w.0 + 1);
        rig.check(&*db, "after the last restart and a write");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

/// Three lives whose windows all contain the same instants, written to in some of them: the last one counts.
fn overlaps(kind: Kind, instants: u32) {
    let mut rig = Rig::new(kind);
    vstd::fs::reverse_dirs(mc::choose(2) == 1);
    let shared = [rig.t0 + 3000, rig.t0 + 3600];
    for _ in 0..3 {
        rig.chunk = [CHUNK, CHUNK / 5 * 2, 2 * CHUNK][mc::choose(3)];
        let which = mc::choose(1 << instants);
        mc::session(|| {
            let db = rig.open();
            full(&*db, &rig.hist, rig.t0, "at the start");
            for (n, t) in shared.iter().enumerate() {
                if which >> n & 1 == 1 {
                    rig.put(&*db, SERIES[0], *t);
                }
            }
            mc::sleep_ms(1100);
        });
        sled::after_crash();
        mc::sleep_ms(5);
    }
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "after the last restart");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

/// The clock is set back, or far ahead, while the process is down: what was stored is still there. Each sample
/// has a timestamp of its own, since it is the clock that says which of two chunks is the newer.
fn clock_set(kind: Kind, lives: usize) {
    let mut rig = Rig::new(kind);
    vstd::fs::reverse_dirs(mc::choose(2) == 1);
    let mut known: Vec<(u64, u64)> = vec![];
    let mut n = 0;
    for life in 0..=lives {
        mc::session(|| {
            let db = rig.open();
            full(&*db, &rig.hist, rig.t0, "at the start");
            let mut new = |rig: &Rig| {
                let w = *windows(&rig.dir).iter().find(|w| !known.contains(w)).expect("no new chunk");
                known.push(w);
                w
            };
            let w = new(&rig);
            let mut put = |rig: &mut Rig, s: usize, t: u64, w| {
                n += 1;
                rig.put_in(&*db, SERIES[s], t - t % 16 + n, w)
            };
            if life < lives {
                match mc::choose(3) {
                    0 => {}
                    1 => put(&mut rig, 0, w.0 + 20, w),
                    _ => {
                        put(&mut rig, 0, w.0 + 20, w);
                        put(&mut rig, 1, w.1 - 20, w);
                        put(&mut rig, 0, w.1 - 10, w);
                    }
                }
                if mc::choose(2) == 1 {
                    mc::sleep_ms(CHUNK + 1);
                    let w = new(&rig);
                    put(&mut rig, 0, w.0 + CHUNK / 2, w);
                }
                mc::sleep_ms(1100);
            } else {
                put(&mut rig, 2, w.0 + 20, w);
            }
            let known = windows(&rig.dir);
            for sel in SELECTORS {
                for w in &known {
                    for (a, b) in [(w.0, w.1), (w.0 + 40, w.1 - 40), (w.1, u64::MAX), (0, w.0)] {
                        ask(&*db, &rig.hist, sel, (a, b), rig.t0, "after the clock was set");
                    }
                }
            }
            full(&*db, &rig.hist, rig.t0, "in the end");
        });
        sled::after_crash();
        let now = mc::now_ms();
        mc::set_clock_ms(match mc::choose(5) {
            0 => now + 11,
            1 => now - CHUNK / 3 - 11,
            2 => now - 3 * CHUNK - 7,
            3 => now - 40 * CHUNK + 3,
            _ => now + 400_000 * CHUNK,
        });
    }
    mc::outcome(format!("{:?}", windows(&rig.dir).iter().map(|w| (w.0 as i64 - rig.t0 as i64, w.1 - w.0)).collect::<Vec<_>>()));
}

pub fn d04(r: &mut Report) {
    r.rule("Two (thorough: three) lives of the process, each with every choice of writes at the start, the middle and the end of the window (ahead of the clock), of roll-overs before the end, and of the time it is down; with the same chunk size, and with another one after the restart; both directory listing orders; three lives with all combinations of three chunk sizes whose windows share instants that are written to in some of them; the clock set back or far ahead while the process is down; the process ends at least a second after its last write, without notice. Also every count up to a bound of restarts of one directory.");
    r.assume("sled's periodic flush (500 ms) makes changes durable within 1 s");
    let mut scs = vec![];
    for kind in KINDS {
        for rev in [false, true] {
            if rev && kind != KINDS[0] && !r.thorough {
                continue;
            }
            let lives = if kind == KINDS[0] || kind == KINDS[1] { r.pick(2, 3) } else { 2 };
            scs.push(Scenario::new(
                format!("restart/{}/{}lives{}", kind.name(), lives, if rev { "/reverse" } else { "" }),
                Cfg::default(),
                move || restarts(kind, &[CHUNK, CHUNK, CHUNK][..lives], rev),
            ));
        }
    }
    r.explore(scs);
    let mut scs = vec![];
    for kind in &KINDS[..r.pick(1, 4)] {
        for sizes in [[CHUNK, CHUNK / 4], [CHUNK / 4, CHUNK]] {
            let kind = *kind;
            scs.push(Scenario::new(
                format!("other-chunk-size/{}/{}-{}", kind.name(), sizes[0], sizes[1]),
                Cfg::default(),
                move || restarts(kind, &sizes, false),
            ));
        }
    }
    r.explore(scs);
    let instants = r.pick(1, 2);
    r.explore(KINDS.iter().map(|kind| {
        let kind = *kind;
        Scenario::new(format!("overlaps/{}", kind.name()), Cfg::default(), move || overlaps(kind, instants))
    }).collect());
    let scs = KINDS.iter().map(|kind| {
        let (kind, lives) = (*kind, if *kind == KINDS[0] || r.thorough { 2 } else { 1 });
        Scenario::new(format!("clock-set/{}", kind.name()), Cfg::default(), move || clock_set(kind, lives))
    }).collect();
    r.explore(scs);
    crate::growth::restarts(r);
}

// ---- D05: crashes ----

fn crash_script(rig: &mut Rig, db: &dyn Base, plan: usize) {
    let p = |rig: &mut Rig, l: &[(&str, &str)], t: u64| {
        // as Rig::put, but the write is under way until it is answered
        let (s, v) = (set(l), rig.next_value());
        rig.hist.begin(&s, t, v, mc::now_ms());
        match db.put(labels(l), TimePoint::new(t, v)) {
            Ok(()) => rig.hist.ack(&s, t, v, mc::now_ms()),
            Err(e) => panic!("a write at {} failed: {}", rel(t, rig.t0), e),
        }
    };
    let w = rig.window();
    match plan {
        0 => {
            p(rig, SERIES[0], w.0 + 1);
            p(rig, SERIES[1], w.0 + 2);
            mc::sleep_ms(1100);
            p(rig, SERIES[0], w.0 + 3);
        }
        1 => {
            p(rig, SERIES[0], w.0 + 1);
            mc::sleep_ms(CHUNK + 1);
            let w = rig.window();
            p(rig, SERIES[0], w.0 + 2);
            p(rig, SERIES[2], w.0 + 3);
        }
        2 => {
            p(rig, SERIES[0], w.0 + 1);
            mc::sleep_ms(2 * CHUNK + 1);
        }
        _ => {
            p(rig, SERIES[2], w.0 + 1);
            mc::sleep_ms(1100);
            p(rig, SERIES[2], w.0 + 2);
            p(rig, SERIES[0], w.0 + 2);
            mc::sleep_ms(1100);
            p(rig, SERIES[1], w.0 + 9);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Script {
    Plan(usize),
    /// every history of this many operations
    History(usize),
    /// a roll-over with client threads: every schedule of them, too
    Concurrent(usize),
}

/// As `Rig::put`, but the write is under way until it is answered.
fn crash_put(rig: &mut Rig, db: &dyn Base, l: &[(&str, &str)], t: u64) {
    let (s, v) = (set(l), rig.next_value());
    rig.hist.begin(&s, t, v, mc::now_ms());
    match db.put(labels(l), TimePoint::new(t, v)) {
        Ok(()) => rig.hist.ack(&s, t, v, mc::now_ms()),
        Err(e) => panic!("a write at {} failed: {}", rel(t, rig.t0), e),
    }
}

fn crash_history(rig: &mut Rig, db: &dyn Base, depth: usize) {
    for k in 0..depth as u64 {
        let w = rig.window();
        match mc::choose(6) {
            0 => crash_put(rig, db, SERIES[0], w.0 + 1 + k),
            1 => crash_put(rig, db, SERIES[2], w.0 + 1 + k),
            2 => {
                // a batch across the ends of the window
                let s = set(SERIES[1]);
                let ts = [w.0 - 1, w.0 + 1 + k, w.0 + 20 + k, w.1 + 1];
                let mut pts = vec![];
                for t in ts {
                    let v = rig.next_value();
                    pts.push((t, v));
                    if t >= w.0 && t <= w.1 {
                        rig.hist.begin(&s, t, v, mc::now_ms());
                    }
                }
                let r = db.put_many(labels(SERIES[1]), pts.iter().map(|(t, v)| TimePoint::new(*t, *v)).collect());
                match r {
                    Ok(()) => {
                        for (t, v) in &pts[1..3] {
                            rig.hist.ack(&s, *t, *v, mc::now_ms())
                        }
                    }
                    // storages on TiKV take samples in time order
                    Err(_) if rig.kind.tikv_storage => {}
                    Err(e) => panic!("a batch failed: {}", e),
                }
            }
            3 => mc::sleep_ms(1100),
            4 => mc::sleep_ms(CHUNK + 1),
            _ => rig.brief(db, "before the crash"),
        }
    }
}

fn crash_concurrent(rig: &mut Rig, db: &Arc<dyn Base>, which: usize) {
    crash_put(rig, &**db, SERIES[0], rig.window().0 + 1);
    let (lo, hi) = rig.window();
    mc::sleep_ms(hi - mc::now_ms());
    let hist = Arc::new(Mutex::new(rig.hist.clone()));
    let acts: Vec<Vec<(usize, u64)>> = match which {
        0 => vec![vec![(0, lo + 100)], vec![(2, hi)]],
        1 => vec![vec![(2, hi + 100), (0, hi)]],
        _ => vec![vec![(2, lo + 100)], vec![(2, lo + 101)]],
    };
    // whatever happens to this thread, what the others did counts
    struct Keep<'a>(&'a mut Hist, Arc<Mutex<Hist>>);
    impl Drop for Keep<'_> {
        fn drop(&mut self) {
            if let Ok(h) = self.1.lock() {
                *self.0 = h.clone()
            }
        }
    }
    let keep = Keep(&mut rig.hist, hist.clone());
    mc::sched(true);
    let hs: Vec<_> = acts
        .into_iter()
        .enumerate()
        .map(|(n, acts)| {
            let (db, hist) = (db.clone(), hist.clone());
            vstd::thread::spawn(move || {
                for (k, (s, t)) in acts.into_iter().enumerate() {
                    let (set, v) = (set(SERIES[s]), 100.0 + (10 * n + k) as f64);
                    hist.lock().unwrap().begin(&set, t, v, mc::now_ms());
                    let r = db.put(labels(SERIES[s]), TimePoint::new(t, v));
                    let mut h = hist.lock().unwrap();
                    match r {
                        Ok(()) => h.ack(&set, t, v, mc::now_ms()),
                        Err(_) => h.refuse(&set, t, v),
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    mc::sleep_ms(20);
    mc::sched(false);
    drop(keep);
}

fn crashing(kind: Kind, script: Script, lives: usize, power: bool) {
    let mut rig = Rig::new(kind);
    // the first life may die anywhere from its first step on, the later ones too
    for life in 0..lives {
        let end = mc::session(|| {
            mc::crashes(true);
            let db = rig.open();
            if life > 0 {
                mc::crashes(false);
                rig.check(&*db, "after the crash");
                mc::crashes(true);
            }
            match script {
                _ if life > 0 => crash_script(&mut rig, &*db, 0),
                Script::Plan(p) => crash_script(&mut rig, &*db, p),
                Script::History(d) => crash_history(&mut rig, &*db, d),
                Script::Concurrent(w) => crash_concurrent(&mut rig, &db, w),
            }
            mc::crashes(false);
            rig.brief(&*db, "without a crash");
        });
        mc::crashes(false);
        mc::sched(false);
        match end {
            End::Crashed => {
                rig.hist.settle(mc::now_ms(), kind.lag());
                if power {
                    vstd::fs::power_loss();
                }
                sled::after_crash();
            }
            End::Done(()) => {
                mc::sleep_ms(1100);
                sled::after_crash();
            }
        }
        mc::sleep_ms(7);
    }
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "after the crash");
        let w = rig.window();
        rig.put(&*db, SERIES[0], w.0 + 5000);
        rig.put(&*db, SERIES[1], w.0 + 6000);
        rig.check(&*db, "after the crash and new writes");
        mc::sleep_ms(1200);
    });
    sled::after_crash();
    mc::sleep_ms(7);
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "after the crash and another restart");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

pub fn d05(r: &mut Report) {
    r.rule("A crash before every file-system, sled and TiKV change (and half-way through every file write) of start-up, of every history up to a depth of {write of a known series, of a new one, batch across the ends of the window, wait, roll-over, query}, and of a roll-over with client threads under every schedule within the preemption bound; then every surviving prefix of each sled database (and, for power loss, every unsynced file whole, halved or empty); then, with and without a second crash in the second life, the database has to open, contain what was acknowledged more than a second earlier and nothing that was not written, and take new writes that survive a further restart.");
    r.assume("sled recovers a prefix of its log that contains what was flushed, and what was written more than a second ago");
    r.assume("renames and directory entries are durable in order");
    let scs_of = |name: &str, list: Vec<(Kind, Script, usize, bool)>, pre: u32| -> Vec<Scenario> {
        list.into_iter()
            .map(|(kind, script, lives, power)| {
                let cfg = Cfg {
                    crashes: lives as u32,
                    preemptions: pre,
                    sched_from_start: pre == 0 && !matches!(script, Script::Concurrent(_)),
                    ..Cfg::default()
                };
                let s = match script {
                    Script::Plan(p) => format!("plan{}", p),
                    Script::History(d) => format!("depth{}", d),
                    Script::Concurrent(w) => format!("shape{}", w),
                };
                Scenario::new(
                    format!("{}/{}/{}{}", name, kind.name(), s, if power { "/power-loss" } else { "" }),
                    cfg,
                    move || crashing(kind, script, lives, power),
                )
            })
            .collect()
    };
    let mut list = vec![];
    for kind in KINDS {
        for plan in 0..4 {
            for power in [true, false] {
                list.push((kind, Script::Plan(plan), 1, power));
            }
        }
    }
    r.explore(scs_of("crash", list, 0));
    let mut list = vec![];
    for (n, kind) in KINDS.iter().enumerate() {
        let d = if n == 0 { r.pick(3, 4) } else { r.pick(2, 4) };
        list.push((*kind, Script::History(d), 1, n == 0 || r.thorough));
        if n == 0 && r.thorough {
            list.push((*kind, Script::History(d), 1, false));
        }
    }
    r.explore(scs_of("crash-in-history", list, 0));
    let shapes = |kinds: &[Kind], which: &[usize]| -> Vec<_> {
        kinds.iter().flat_map(|k| which.iter().map(move |w| (*k, Script::Concurrent(*w), 1, false))).collect()
    };
    if r.thorough {
        r.explore(scs_of("crash-under-schedules", shapes(&KINDS, &[0, 1, 2]), 1));
        r.explore(scs_of("crash-under-more-schedules", shapes(&KINDS[..2], &[1]), 2));
    } else {
        r.explore(scs_of("crash-under-schedules", shapes(&KINDS[..2], &[1]), 1));
        r.explore(scs_of("crash-under-free-schedules", shapes(&KINDS[..2], &[0, 2]), 0));
    }
    let mut list = vec![];
    for kind in &KINDS[..r.pick(2, 4)] {
        for plan in r.pick(1, 0)..r.pick(2, 3) {
            list.push((*kind, Script::Plan(plan), 2, plan == 0));
        }
    }
    r.explore(scs_of("two-crashes", list, 0));
}

// ---- D06: the backends of a directory ----

fn mismatch(first: Kind, second: Kind, depth: usize, crash: bool) {
    let mut rig = Rig::new(first);
    vstd::fs::reverse_dirs(mc::choose(2) == 1);
    let mut left = depth;
    let mut more = true;
    let mut made = false;
    while more {
        let end = mc::session(|| {
            mc::crashes(crash);
            mc::faults(true);
            let used = mc::faults_used();
            let db = match open(&rig.dir, first, CHUNK, &PD) {
                Ok(db) => db,
                Err(e) if mc::faults_used() == used => panic!("a start failed though no call did: {}", e),
                Err(_) => {
                    // left as it is, or tried again
                    mc::faults(false);
                    mc::crashes(false);
                    return mc::choose(2) == 1;
                }
            };
            mc::faults(false);
            made = true;
            while left > 0 {
                left -= 1;
                let w = rig.window();
                match mc::choose(5) {
                    0 => crash_put(&mut rig, &*db, SERIES[0], w.1 - 1 - left as u64),
                    1 => crash_put(&mut rig, &*db, SERIES[2], w.1 - 1 - left as u64),
                    2 => mc::sleep_ms(CHUNK + 1),
                    3 => {
                        mc::crashes(false);
                        mc::sleep_ms(1200);
                        return true;
                    }
                    _ => left = 0,
                }
            }
            mc::crashes(false);
            mc::sleep_ms(1200);
            false
        });
        mc::crashes(false);
        if let End::Crashed = end {
            rig.hist.settle(mc::now_ms(), first.lag());
        }
        more = matches!(end, End::Done(true));
        sled::after_crash();
        mc::sleep_ms(7);
    }
    let cl = tikv_client::cluster(&PD);
    for round in 0..2 {
        let before = (tree(&rig.dir), cl.lock().unwrap().data.clone());
        let mut opened = false;
        let used = mc::faults_used();
        mc::session(|| match {
            mc::faults(true);
            let r = open(&rig.dir, second, CHUNK, &PD);
            mc::faults(false);
            r
        } {
            Ok(_) if made => panic!("a database made with {} opens with {}", first.name(), second.name()),
            Ok(db) => {
                // the first start never came to its end
                opened = true;
                let w = rig.window();
                rig.put(&*db, SERIES[1], w.0 + 1);
                rig.check(&*db, "made anew");
                mc::outcome("made anew".into());
                mc::sleep_ms(1200);
            }
            Err(e) => mc::outcome(e),
        });
        sled::after_crash();
        mc::sleep_ms(7);
        if opened {
            mc::session(|| {
                if open(&rig.dir, first, CHUNK, &PD).is_ok() {
                    panic!("a database made with {} opens with {}", second.name(), first.name())
                }
            });
            sled::after_crash();
            mc::sleep_ms(7);
            rig.kind = second;
            break;
        }
        if !made && mc::faults_used() > used {
            // not refused, it may have been cut short while it was making the database anew
            continue;
        }
        let after = (tree(&rig.dir), cl.lock().unwrap().data.clone());
        if before.0 != after.0 {
            let b: Vec<_> = before.0.keys().collect();
            let a: Vec<_> = after.0.keys().collect();
            panic!("the refused start (round {}) changed the directory: {:?} -> {:?}", round, b, a)
        }
        if before.1 != after.1 {
            panic!("the refused start changed the TiKV cluster")
        }
    }
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "with the right backends again");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

pub fn d06(r: &mut Report) {
    r.rule("Every ordered pair of different backend combinations, after every history up to a depth of {write of either of two series, roll-over, restart}, including none, with a crash before every change in it, and with calls failing during any start: the second start is refused, twice, the directory and the cluster are byte for byte as before, and the first combination opens again with all data. Only if the first start never came to its end the second may make the database anew; then it is the first that is refused.");
    let plans = if r.thorough { vec![(false, 0, 4), (true, 0, 3), (false, 1, 2), (false, 2, 1)] } else { vec![(false, 0, 3), (true, 0, 1), (false, 1, 1)] };
    for (crash, fail, depth) in plans {
        let mut scs = vec![];
        for a in KINDS {
            for b in KINDS {
                if a == b {
                    continue;
                }
                let cfg = Cfg { crashes: crash as u32, faults: fail, ..Cfg::default() };
                scs.push(Scenario::new(
                    format!("mismatch{}/{}->{}/{}", if crash { "-after-crash" } else if fail == 2 { "-with-two-failures" } else if fail == 1 { "-with-failures" } else { "" }, a.name(), b.name(), depth),
                    cfg,
                    move || mismatch(a, b, depth, crash),
                ));
            }
        }
        r.explore(scs);
    }
}

// ---- D07: backend failures ----

fn failing(kind: Kind, plan: usize) {
    let mut rig = Rig::new(kind);
    let t0 = rig.t0;
    let end = mc::session(|| {
        let db = rig.open();
        let w = rig.window();
        if plan >= 1 {
            rig.put(&*db, SERIES[0], w.0 + 1);
            rig.put(&*db, SERIES[1], w.0 + 1);
        }
        if plan == 3 {
            mc::faults(true);
            mc::sleep_ms(CHUNK + 1);
            mc::faults(false);
            // the roll-over may have failed; the database goes on
            rig.check(&*db, "after a roll-over with a failing backend");
            if mc::faults_used() > 0 {
                mc::sleep_ms(CHUNK);
                rig.check(&*db, "after the next roll-over");
            }
            let w = rig.window();
            if w.0 == t0 {
                panic!("no roll-over happens any more after one failed")
            }
            rig.put(&*db, SERIES[0], w.1 - 1);
            rig.check(&*db, "after the next roll-over");
            return;
        }
        mc::faults(true);
        let acts: &[(usize, u64)] = match plan {
            0 => &[(0, 10), (1, 11)],
            1 => &[(0, 10), (2, 11)],
            _ => &[],
        };
        for (s, dt) in acts {
            let (l, t) = (SERIES[*s], w.0 + dt);
            let (sset, v) = (set(l), rig.next_value());
            let used = mc::faults_used();
            rig.hist.begin(&sset, t, v, mc::now_ms());
            let r = db.put(labels(l), TimePoint::new(t, v));
            mc::note(|| format!("write {} {} -> {:?}", show_set(&sset), rel(t, t0), r));
            match r {
                Ok(()) => rig.hist.ack(&sset, t, v, mc::now_ms()),
                Err(e) if mc::faults_used() == used => panic!("a write failed though the backend did not: {}", e),
                Err(_) => {
                    // trying again without failures: it is stored, or was already
                    mc::faults(false);
                    let r = db.put(labels(l), TimePoint::new(t, v));
                    mc::note(|| format!("again -> {:?}", r));
                    match r {
                        Ok(()) => rig.hist.ack(&sset, t, v, mc::now_ms()),
                        Err(e) => {
                            let a = ask(&*db, &rig.hist, &[("a", l[0].1)], (t, t), t0, "after a refused second try");
                            if !a.contains_key(&sset) {
                                panic!("a write that failed once can never be made: {}", e)
                            }
                        }
                    }
                    mc::faults(true);
                }
            }
        }
        // queries either fail or are complete
        for sel in [&[("a", "1")][..], &[("a", "1"), ("b", "1")]] {
            let used = mc::faults_used();
            match db.query(labels(sel), 0, u64::MAX) {
                Err(e) => {
                    mc::note(|| format!("query -> {}", e));
                    if mc::faults_used() == used {
                        panic!("a query failed though the backend did not: {}", e)
                    }
                }
                Ok(g) => {
                    let a = normal(&g).unwrap_or_else(|e| panic!("{}", e));
                    if let Err(e) = rig.hist.check(&set(sel), 0, u64::MAX, &a, t0) {
                        panic!("a query with a failing backend answers {} instead of failing: {}", show_answer(&a, t0), e)
                    }
                }
            }
        }
        mc::faults(false);
        rig.check(&*db, "after the backend recovered");
        mc::sleep_ms(CHUNK + 1);
        rig.check(&*db, "after the roll-over");
        print_state(&*db, &rig.hist, t0);
    });
    if let End::Crashed = end {
        panic!("ENGINE: crash without a crash point")
    }
}

/// Every history of this many operations, any of which may meet failing calls.
fn failing_history(kind: Kind, depth: usize) {
    let mut rig = Rig::new(kind);
    let t0 = rig.t0;
    mc::session(|| {
        let db = rig.open();
        // a failed roll-over leaves the window unknown until the next one
        let mut unsure = false;
        mc::faults(true);
        for k in 0..depth as u64 {
            let used = mc::faults_used();
            let w = rig.window();
            let t = if unsure { mc::now_ms() + k } else { w.0 + 1 + 10 * k };
            match mc::choose(5) {
                n @ (0 | 1 | 2) => {
                    let s = SERIES[[0, 2, 1][n]];
                    let ts = if n == 2 { vec![t, t + 1] } else { vec![t] };
                    let pts: Vec<(u64, f64)> = ts.iter().map(|t| (*t, rig.next_value())).collect();
                    let sset = set(s);
                    for (t, v) in &pts {
                        rig.hist.begin(&sset, *t, *v, mc::now_ms());
                    }
                    let r = if n == 2 {
                        db.put_many(labels(s), pts.iter().map(|(t, v)| TimePoint::new(*t, *v)).collect())
                    } else {
                        db.put(labels(s), TimePoint::new(t, pts[0].1))
                    };
                    mc::note(|| format!("write {} {:?} -> {:?}", show_set(&sset), ts.iter().map(|t| rel(*t, t0)).collect::<Vec<_>>(), r));
                    match r {
                        // a batch leaves out what is outside the window, which is not known now
                        Ok(()) if unsure && n == 2 => {}
                        Ok(()) => {
                            for (t, v) in &pts {
                                rig.hist.ack(&sset, *t, *v, mc::now_ms())
                            }
                        }
                        Err(_) if mc::faults_used() > used => {}
                        Err(_) if unsure && n != 2 => rig.hist.refuse(&sset, t, pts[0].1),
                        Err(e) => panic!("a write failed though the backend did not: {}", e),
                    }
                }
                3 => {
                    for sel in [&[("a", "1")][..], &[("a", "2")], &[("a", "1"), ("b", "1")]] {
                        let used = mc::faults_used();
                        match db.query(labels(sel), 0, u64::MAX) {
                            Err(e) if mc::faults_used() == used => panic!("a query failed though the backend did not: {}", e),
                            Err(e) => mc::note(|| format!("query -> {}", e)),
                            Ok(g) => {
                                let a = normal(&g).unwrap_or_else(|e| panic!("{}", e));
                                if let Err(e) = rig.hist.check(&set(sel), 0, u64::MAX, &a, t0) {
                                    panic!("a query with a failing backend answers {} instead of failing: {}", show_answer(&a, t0), e)
                                }
                            }
                        }
                    }
                }
                _ => {
                    mc::sleep_ms(CHUNK + 1);
                    unsure = mc::faults_used() > used;
                }
            }
        }
        mc::faults(false);
        rig.check(&*db, "after the backend recovered");
        mc::sleep_ms(2 * CHUNK + 1);
        let w = rig.window();
        if w.0 <= t0 || w.1 < mc::now_ms() {
            panic!("no roll-over happens any more after one failed")
        }
        rig.put(&*db, SERIES[0], w.1 - 1);
        rig.check(&*db, "after the next roll-over");
        mc::sleep_ms(1200);
    });
    sled::after_crash();
    mc::sleep_ms(7);
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "after a restart");
        let w = rig.window();
        rig.put(&*db, SERIES[1], w.1);
        rig.check(&*db, "after a restart and a write");
        print_state(&*db, &rig.hist, t0);
    });
}

/// Start-up with a failing backend: it says so, or the database works; and the next start works.
fn failing_start(kind: Kind, existing: bool) {
    let mut rig = Rig::new(kind);
    if existing {
        mc::session(|| {
            let db = rig.open();
            let w = rig.window();
            rig.put(&*db, SERIES[0], w.0 + 1);
            mc::sleep_ms(1200);
        });
        sled::after_crash();
        mc::sleep_ms(7);
    }
    mc::session(|| {
        mc::faults(true);
        let r = open(&rig.dir, kind, CHUNK, &PD);
        mc::faults(false);
        match r {
            Err(e) => {
                mc::outcome(format!("refused: {}", e));
                if mc::faults_used() == 0 {
                    panic!("the database does not open: {}", e)
                }
            }
            Ok(db) => {
                rig.check(&*db, "opened with a failing backend");
                let w = rig.window();
                rig.put(&*db, SERIES[0], w.0 + 2);
                rig.check(&*db, "opened with a failing backend");
                mc::sleep_ms(1200);
            }
        }
    });
    sled::after_crash();
    mc::sleep_ms(7);
    mc::session(|| {
        let db = rig.open();
        rig.check(&*db, "at the next start");
        let w = rig.window();
        rig.put(&*db, SERIES[0], w.0 + 2);
        rig.check(&*db, "at the next start");
        print_state(&*db, &rig.hist, rig.t0);
    });
}

pub fn d07(r: &mut Report) {
    r.rule("Every placement of up to two failures of a file-system, sled or TiKV call - including TiKV puts that take effect and are answered with an error - in writes of new and known series, batches, queries, roll-overs and start-up, in fixed plans and in every history up to a depth; failed single writes are tried again; afterwards the database goes on, rolls over and restarts.");
    let mut scs = vec![];
    let f = r.pick(2, 3);
    for kind in KINDS {
        for plan in 0..4 {
            let cfg = Cfg { faults: f, bg_panic_fails: true, ..Cfg::default() };
            scs.push(Scenario::new(format!("failures/{}/plan{}", kind.name(), plan), cfg, move || failing(kind, plan)));
        }
        for ex in [false, true] {
            let cfg = Cfg { faults: f, ..Cfg::default() };
            scs.push(Scenario::new(format!("failing-start/{}/{}", kind.name(), ex), cfg, move || failing_start(kind, ex)));
        }
    }
    r.explore(scs);
    for (name, f, depth) in r.pick(vec![("failures-in-history", 1, 3), ("two-failures-in-history", 2, 2)], vec![("failures-in-history", 1, 4), ("two-failures-in-history", 2, 3), ("three-failures-in-history", 3, 2)]) {
        let mut scs = vec![];
        for (n, kind) in KINDS.into_iter().enumerate() {
            let depth = if r.thorough || n < 2 { depth } else { depth - 1 };
            let cfg = Cfg { faults: f, ..Cfg::default() };
            scs.push(Scenario::new(format!("{}/{}/depth{}", name, kind.name(), depth), cfg, move || failing_history(kind, depth)));
        }
        r.explore(scs);
    }
}

// ---- N01: other things in the data directory ----

const FOREIGN: usize = 9;

fn make_foreign(dir: &PathBuf, which: usize) {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let file = |n: &OsStr, text: &str| std::fs::write(dir.join(n), text).unwrap();
    let sub = |n: &OsStr| {
        std::fs::create_dir_all(dir.join(n)).unwrap();
        std::fs::write(dir.join(n).join("content"), "of a directory").unwrap();
    };
    match which {
        0 => {
            file("notes.txt".as_ref(), "notes");
            file("metadata.json.bak".as_ref(), "{}");
            file(".lock".as_ref(), "");
        }
        1 => {
            sub("backup".as_ref());
            sub("lost+found".as_ref());
            sub("g0".as_ref());
        }
        // names that a chunk could have
        2 => {
            file("1".as_ref(), "a file");
            file("639d02ba000000035bafab72".as_ref(), "a file");
            file("ffffffffffffffffffffffffffffffff".as_ref(), "a file");
        }
        3 => {
            sub("0".as_ref());
            sub("18bcfe5680000000018bcfe568ff".as_ref());
        }
        4 => {
            file(OsStr::from_bytes(b"\xff\xfe"), "no text");
            sub(OsStr::from_bytes(b"0\x80"));
        }
        5 => {
            sub("+ff".as_ref());
            sub("-1".as_ref());
            sub("0x12".as_ref());
        }
        6 => {
            sub("fffffffffffffffffffffffffffffffff".as_ref());
            sub("\u{e9}\u{662f}".as_ref());
            sub(" 12".as_ref());
        }
        // copies of chunks under names that say they are not
        7 => {
            for name in ["639d02ba000000035bafab72.tmp", "639d02ba000000035bafab73.bak", "639d02ba000000035bafab74~", "639d02ba000000035bafab75.old", "639d02ba000000035bafab76 ", "639d02ba000000035bafab77_", "639d02ba000000035bafab78-1", ".639d02ba000000035bafab79", "639d02ba000000035bafab7a.d", "tmp639d02ba000000035bafab7b", "639d02ba,000000035bafab7c", "639d02ba000000035bafab7d\n", "639d02ba000000035bafab7eg", "639d02ba000000035bafab7f.tar.gz", "+639d02ba000000035bafab80", "0639d02ba000000035bafab81", "000000000639d02ba000000035bafab82", "639D02BA000000035BAFAB83"] {
                sub(name.as_ref());
                for below in ["storage", "indexer"] {
                    sub(Path::new(name).join(below).as_os_str());
                }
                file(Path::new(name).join("metadata.json").as_os_str(), r#"{"start_time":1671234234,"end_time":14423141234,"identifier":[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16]}"#);
            }
        }
        _ => {
            std::os::unix::fs::symlink("nowhere", dir.join("link")).unwrap();
            std::os::unix::fs::symlink("nowhere", dir.join("1f")).unwrap();
        }
    }
}

/// What is in the directory besides chunks that have metadata.
fn foreign(dir: &PathBuf, names: &[PathBuf]) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut t = BTreeMap::new();
    for n in names {
        let p = dir.join(n);
        match std::fs::symlink_metadata(&p) {
            Err(_) => {}
            Ok(m) if m.is_symlink() => {
                t.insert(n.clone(), std::fs::read_link(&p).ok().map(|l| l.display().to_string().into_bytes()));
            }
            Ok(m) if m.is_dir() => {
                t.insert(n.clone(), None);
                t.extend(tree(&p));
            }
            Ok(_) => {
                t.insert(n.clone(), std::fs::read(&p).ok());
            }
        }
    }
    t
}

fn among_others(kind: Kind, base: &str, first: bool, max: usize) {
    let mut rig = Rig::at(kind, base);
    vstd::fs::reverse_dirs(mc::choose(2) == 1);
    let mut which = vec![];
    for k in 0..FOREIGN {
        if which.len() < max && mc::choose(2) == 1 {
            which.push(k);
        }
    }
    let lists = |dir: &PathBuf| -> Vec<PathBuf> { std::fs::read_dir(dir).unwrap().flatten().map(|e| e.file_name().into()).collect() };
    let mut theirs = vec![];
    let mut before = BTreeMap::new();
    for life in 0..3 {
        if (life == 0) == first && life < 2 {
            let ours = lists(&rig.dir);
            for k in &which {
                make_foreign(&rig.dir, *k);
            }
            theirs = lists(&rig.dir).into_iter().filter(|n| !ours.contains(n)).collect();
            before = foreign(&rig.dir, &theirs);
        }
        mc::session(|| {
            let db = rig.open();
            rig.check(&*db, "at the start");
            let w = {
                let all: Vec<_> = windows(&rig.dir).into_iter().filter(|w| !theirs.contains(&encode_chunk_dir(w.0, w.1).into())).collect();
                *all.last().expect("no chunk directory")
            };
            rig.put_in(&*db, SERIES[0], w.0 + 1, w);
            mc::sleep_ms(CHUNK + 1);
            rig.check(&*db, "after a roll-over");
            mc::sleep_ms(1200);
        });
        sled::after_crash();
        mc::sleep_ms(7);
        let after = foreign(&rig.dir, &theirs);
        if before != after {
            panic!("foreign entries changed: {:?} -> {:?}", before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>())
        }
        mc::outcome(format!("{:?} {}", theirs, windows(&rig.dir).len()));
    }
}

pub fn n01(r: &mut Report) {
    r.rule("Names: all windows over a lattice of boundary timestamps are named reversibly and differently; all short names over a hostile alphabet, and names of about 32 digits, are taken for windows only if they are. Directories: every subset (up to a size) of nine groups of foreign entries (copies of chunks under other names among them), put into a data directory before or after its first use, in data directories of several names: three lives with roll-overs find their data and leave the entries byte for byte alone.");
    crate::units::names(r);
    let mut scs = vec![];
    for kind in KINDS {
        for (base, first) in [("db", true), ("db", false), ("d\u{e9} x/\u{65e5}\u{672c}\u{8a9e}\u{30c7}\u{30fc}\u{30bf}\u{30d9}\u{30fc}\u{30b9}\u{306e}\u{7f6e}\u{304d}\u{5834}/0", true), ("d\u{e9} x/\u{65e5}\u{672c}\u{8a9e}\u{30c7}\u{30fc}\u{30bf}\u{30d9}\u{30fc}\u{30b9}\u{306e}\u{7f6e}\u{304d}\u{5834}/0", false), ("ff", true)] {
            let max = if kind == KINDS[0] { r.pick(3, 8) } else { r.pick(1, 3) };
            scs.push(Scenario::new(
                format!("foreign/{}/in {}{}", kind.name(), base, if first { "" } else { "/later" }),
                Cfg::default(),
                move || among_others(kind, base, first, max),
            ));
        }
    }
    r.explore(scs);
}
