//! Checks of one chunk: linearizability under every schedule, and what closing means.
use crate::core::Report;
use crate::db::*;
use crate::dbchecks::{Rig, CHUNK};
use crate::oracle::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::label::Labels;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::Builder;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use vstd::mc::{self, Cfg, Scenario};

const PD: [&str; 1] = ["pd"];

trait AnyChunk: Send + Sync {
    fn put(&self, l: Labels, p: TimePoint) -> R<()>;
    fn ask(&self, l: Labels, a: u64, b: u64) -> R<Vec<(Labels, Vec<TimePoint>)>>;
    fn shut(&self);
    fn is_shut(&self) -> bool;
}

impl<S: Storage + Send + Sync, I: Indexer + Send + Sync> AnyChunk for Chunk<S, I> {
    fn put(&self, l: Labels, p: TimePoint) -> R<()> {
        self.insert(l, p).map_err(|e| e.to_string())
    }
    fn ask(&self, l: Labels, a: u64, b: u64) -> R<Vec<(Labels, Vec<TimePoint>)>> {
        match self.query(l, a, b) {
            Ok(v) => Ok(v.iter().map(|t| (t.meta_data().clone(), t.time_points().clone())).collect()),
            Err(monolith::MonolithErr::OutOfRangeErr(_, _)) => Ok(vec![]),
            Err(e) => Err(e.to_string()),
        }
    }
    fn shut(&self) {
        self.close()
    }
    fn is_shut(&self) -> bool {
        self.is_closed()
    }
}

fn chunk(kind: Kind, dir: &Path, w: (u64, u64)) -> Arc<dyn AnyChunk> {
    let o = ChunkOpts { start_time: Some(w.0), end_time: Some(w.1), ..Default::default() };
    fn go<S, I>(dir: &Path, o: &ChunkOpts, s: Box<dyn Builder<S> + Send + Sync>, i: Box<dyn Builder<I> + Send + Sync>) -> Arc<dyn AnyChunk>
    where
        S: Storage + Send + Sync + 'static,
        I: Indexer + Send + Sync + 'static,
    {
        std::fs::create_dir_all(dir.join("storage")).unwrap();
        std::fs::create_dir_all(dir.join("indexer")).unwrap();
        let s = s.build(dir.join("storage").display().to_string(), Some(o), None).expect("storage");
        let i = i.build(dir.join("indexer").display().to_string(), Some(o), None).expect("indexer");
        Arc::new(Chunk::new(s, i, o))
    }
    match (kind.tikv_storage, kind.tikv_indexer) {
        (false, false) => go(dir, &o, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())),
        (true, true) => go(dir, &o, tikv_storage(&PD), tikv_indexer(&PD)),
        (true, false) => go(dir, &o, tikv_storage(&PD), Box::new(SledIndexerBuilder::new())),
        (false, true) => go(dir, &o, Box::new(SledStorageBuilder::new()), tikv_indexer(&PD)),
    }
}

// ---- what one chunk may do ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// series, time after the start of the window, number of the value
    Put(usize, u64, usize),
    /// selector
    Ask(usize),
    Close,
    IsClosed,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Res {
    Done,
    Refused,
    Found(Answer),
    Flag(bool),
}

const WINDOW: (u64, u64) = (1_000_000, 1_001_000);

#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct Model {
    cells: BTreeMap<(Set, u64), u64>,
    closed: bool,
    ordered: bool,
}

fn val(n: usize) -> f64 {
    100.0 + n as f64
}

impl Model {
    fn step(&mut self, op: Op) -> Res {
        match op {
            Op::Close => {
                self.closed = true;
                Res::Done
            }
            Op::IsClosed => Res::Flag(self.closed),
            Op::Put(s, dt, v) => {
                let t = WINDOW.0 + dt;
                let s = set(SERIES[s]);
                let late = self.ordered && self.cells.keys().any(|(x, y)| *x == s && *y >= t);
                if self.closed || t > WINDOW.1 || late {
                    return Res::Refused;
                }
                self.cells.insert((s, t), val(v).to_bits());
                Res::Done
            }
            Op::Ask(k) => {
                let sel = set(SELECTORS[k]);
                let mut a = Answer::new();
                for ((s, t), v) in &self.cells {
                    if sel.is_subset(s) {
                        a.entry(s.clone()).or_default().push((*t, *v));
                    }
                }
                Res::Found(a)
            }
        }
    }
}

fn perform(c: &dyn AnyChunk, op: Op) -> R<Res> {
    Ok(match op {
        Op::Put(s, dt, v) => match c.put(labels(SERIES[s]), TimePoint::new(WINDOW.0 + dt, val(v))) {
            Ok(()) => Res::Done,
            Err(_) => Res::Refused,
        },
        Op::Ask(k) => {
            let a = normal(&c.ask(labels(SELECTORS[k]), 0, u64::MAX).map_err(|e| format!("{:?} failed: {}", op, e))?)?;
            Res::Found(a.into_iter().filter(|(_, p)| !p.is_empty()).collect())
        }
        Op::Close => {
            c.shut();
            Res::Done
        }
        Op::IsClosed => Res::Flag(c.is_shut()),
    })
}

#[derive(Clone, Debug)]
struct Event {
    op: Op,
    start: u64,
    end: u64,
    res: Res,
}

/// Is there an order of the operations, consistent with real time, that the model answers alike?
fn linearizable(events: &[Event], ordered: bool) -> bool {
    fn go(done: u64, m: &Model, ev: &[Event], seen: &mut HashSet<(u64, Model)>) -> bool {
        if done.count_ones() as usize == ev.len() {
            return true;
        }
        if !seen.insert((done, m.clone())) {
            return false;
        }
        let first_end = ev.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.end).min().unwrap();
        for (i, e) in ev.iter().enumerate() {
            if done >> i & 1 == 1 || e.start > first_end {
                continue;
            }
            let mut n = m.clone();
            if n.step(e.op) == e.res && go(done | 1 << i, &n, ev, seen) {
                return true;
            }
        }
        false
    }
    go(0, &Model { ordered, ..Default::default() }, events, &mut HashSet::new())
}

fn show_event(e: &Event) -> String {
    let r = match &e.res {
        Res::Done => "done".into(),
        Res::Refused => "refused".into(),
        Res::Flag(b) => b.to_string(),
        Res::Found(a) => show_answer(a, WINDOW.0),
    };
    format!("{}..{} {:?} -> {}", e.start, e.end, e.op, r)
}

/// Everything that is in the storage and the index of the chunk.
fn contents(dir: &Path) -> Vec<Vec<(Vec<u8>, Vec<u8>)>> {
    let c = tikv_client::cluster(&PD);
    let c = c.lock().unwrap();
    vec![
        sled::dump(&dir.join("storage").join("storage")),
        sled::dump(&dir.join("indexer").join("indexer")),
        c.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    ]
}

fn run(kind: Kind, before: &[Op], threads: Vec<Vec<Op>>, closing: bool) {
    let dir = mc::root().join("chunk");
    let at_close: Arc<Mutex<Option<Vec<Vec<(Vec<u8>, Vec<u8>)>>>>> = Default::default();
    let events: Arc<Mutex<(u64, Vec<Event>)>> = Arc::new(Mutex::new((0, vec![])));
    let act = {
        let (events, at_close, dir) = (events.clone(), at_close.clone(), dir.clone());
        Arc::new(move |c: &dyn AnyChunk, op: Op| {
            let start = {
                let mut g = events.lock().unwrap();
                g.0 += 1;
                g.0
            };
            let res = perform(c, op).unwrap_or_else(|e| panic!("{}", e));
            if closing && (op == Op::Close || res == Res::Flag(true)) {
                let now = contents(&dir);
                at_close.lock().unwrap().get_or_insert(now);
            }
            let mut g = events.lock().unwrap();
            g.0 += 1;
            let e = Event { op, start, end: g.0, res };
            mc::note(|| show_event(&e));
            g.1.push(e);
        })
    };
    mc::session(|| {
        let c = chunk(kind, &mc::root().join("chunk"), WINDOW);
        for op in before {
            act(&*c, *op);
        }
        mc::sched(true);
        let hs: Vec<_> = threads
            .into_iter()
            .map(|ops| {
                let (c, act) = (c.clone(), act.clone());
                vstd::thread::spawn(move || {
                    for op in ops {
                        act(&*c, op);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        mc::sched(false);
        // what is there in the end
        for op in [Op::IsClosed, Op::Ask(0), Op::Ask(1), Op::Ask(2), Op::Ask(3), Op::Put(0, 990, 90), Op::Put(1, 991, 91), Op::Ask(0)] {
            act(&*c, op);
        }
        let ev = events.lock().unwrap().1.clone();
        if !linearizable(&ev, kind.tikv_storage) {
            panic!("no order of the operations explains their results: {}", ev.iter().map(show_event).collect::<Vec<_>>().join("; "))
        }
        if let Some(was) = &*at_close.lock().unwrap() {
            if was.iter().all(|x| x.is_empty()) && ev.iter().any(|e| matches!(e.op, Op::Put(..)) && e.res == Res::Done) && contents(&dir).iter().all(|x| x.is_empty()) {
                panic!("ENGINE: the contents of the chunk are not where they are looked for")
            }
            if *was != contents(&dir) {
                panic!("the storage or the index of the chunk changed after it had been closed: {}", ev.iter().map(show_event).collect::<Vec<_>>().join("; "))
            }
        }
        mc::outcome(ev.iter().map(show_event).collect::<Vec<_>>().join(";"));
    });
}

type Shape = (&'static str, Vec<Op>, Vec<Vec<Op>>);

fn scenarios(r: &Report, part: &'static str, shapes: &[Shape], kinds: &[Kind], deep: u32) -> Vec<Scenario> {
    let mut scs = vec![];
    for kind in kinds {
        for (name, before, th) in shapes {
            let p = match th.len() {
                2 => r.pick(2 + deep, 4),
                _ => r.pick(1, 2),
            };
            let (kind, before, th) = (*kind, before.clone(), th.clone());
            scs.push(Scenario::new(
                format!("{}/{}/{}", part, kind.name(), name),
                Cfg { preemptions: p, sched_from_start: false, max_steps: 50_000, ..Cfg::default() },
                move || run(kind, &before, th.clone(), part == "closing"),
            ));
        }
    }
    scs
}

pub fn d03(r: &mut Report) {
    use Op::*;
    r.rule("Every schedule, within the preemption bound, of two or three threads that write known and new series of one chunk (same series, same instant, late), query it and close it; the results of all operations, with the final contents, have to be those of some order of the operations that respects real time (checked by enumeration of the orders). Also in a chunk that already holds more series than fit a small list.");
    r.assume("sequentially consistent memory; the scheduler owns every lock, channel, atomic, sleep and backend call");
    let known = vec![Put(0, 1, 0)];
    let shapes: Vec<Shape> = vec![
        ("put|ask", known.clone(), vec![vec![Put(0, 5, 1)], vec![Ask(0)]]),
        ("new|ask", vec![], vec![vec![Put(0, 5, 1)], vec![Ask(0), Ask(0)]]),
        ("new|same-new", vec![], vec![vec![Put(0, 5, 1)], vec![Put(0, 6, 2)]]),
        ("new|other-new", vec![], vec![vec![Put(0, 5, 1), Ask(0)], vec![Put(1, 6, 2), Ask(0)]]),
        ("same-instant", known.clone(), vec![vec![Put(0, 5, 1), Ask(2)], vec![Put(0, 5, 2), Ask(2)]]),
        ("late", known.clone(), vec![vec![Put(0, 7, 1), Put(0, 5, 2)], vec![Put(0, 6, 3), Ask(2)]]),
        ("put-put|ask-ask", known.clone(), vec![vec![Put(0, 5, 1), Put(1, 5, 2)], vec![Ask(0), Ask(0)]]),
        ("put|close", known.clone(), vec![vec![Put(0, 5, 1), Put(2, 6, 2)], vec![Close, Ask(0)]]),
        ("ask|ask", known.clone(), vec![vec![Ask(0), Ask(2)], vec![Ask(0), IsClosed]]),
        ("new|new|new", vec![], vec![vec![Put(0, 5, 1)], vec![Put(0, 6, 2)], vec![Put(1, 7, 3)]]),
        ("put|put|ask", known.clone(), vec![vec![Put(0, 5, 1)], vec![Put(1, 6, 2)], vec![Ask(0), Ask(0)]]),
        ("put|close|ask", known.clone(), vec![vec![Put(0, 5, 1)], vec![Close], vec![Ask(0), Ask(0)]]),
        ("put|ask|ask", known.clone(), vec![vec![Put(0, 5, 1), Put(0, 6, 2)], vec![Ask(0)], vec![Ask(0)]]),
    ];
    let scs = scenarios(r, "linearizable", &shapes, &KINDS, 0);
    r.explore(scs);
    let scs = crowds(r);
    r.explore(scs);
}

/// A chunk with a great many series, some of them written again later; each keeps its own samples.
/// The first `shared` have a label in common.
fn crowd(kind: Kind, n: u64, shared: u64) {
    fn of<'a>(k: u64, shared: u64, i: &'a str, g: &'a str) -> Vec<(&'a str, &'a str)> {
        let mut l = vec![("i", i)];
        if k % 3 == 0 {
            l.push(("g", g));
        }
        if k < shared {
            l.insert((k % 2) as usize, ("all", "1"));
        }
        l
    }
    mc::session(|| {
        let c = chunk(kind, &mc::root().join("chunk"), WINDOW);
        let put = |k: u64, dt: u64| {
            let (i, g) = (k.to_string(), (k / 5).to_string());
            c.put(labels(&of(k, shared, &i, &g)), TimePoint::new(WINDOW.0 + dt, (k * 10 + dt) as f64))
                .unwrap_or_else(|e| panic!("write {} of {} series failed: {}", dt, k + 1, e));
        };
        let ask = |l: &[(&str, &str)]| {
            normal(&c.ask(labels(l), 0, u64::MAX).unwrap_or_else(|e| panic!("with {} series: selecting {:?} failed: {}", n, l, e))).unwrap_or_else(|e| panic!("{}", e))
        };
        for k in 0..n {
            put(k, 1);
            // an earlier series again: it is known
            if k % 7 == 6 {
                put(k / 7, 2);
            }
        }
        let twice = |k: u64| k * 7 + 6 < n;
        let want = |k: u64| {
            let (i, g) = (k.to_string(), (k / 5).to_string());
            let dts: &[u64] = if twice(k) { &[1, 2] } else { &[1] };
            (set(&of(k, shared, &i, &g)), dts.iter().map(|d| (WINDOW.0 + d, ((k * 10 + d) as f64).to_bits())).collect::<Vec<_>>())
        };
        for k in 0..n {
            let a = ask(&[("i", &k.to_string())]);
            let w: Answer = [want(k)].iter().cloned().collect();
            if a != w {
                panic!("with {} series, number {} is {} instead of {}", n, k, show_answer(&a, 0), show_answer(&w, 0))
            }
            if k % 5 == 0 {
                let g = (k / 5).to_string();
                let a = ask(&[("g", &g)]);
                let w: Answer = (k..(k + 5).min(n)).filter(|k| k % 3 == 0).map(want).collect();
                if a != w {
                    panic!("with {} series, group {} is {} instead of {}", n, g, show_answer(&a, 0), show_answer(&w, 0))
                }
            }
        }
        let a = ask(&[("all", "1")]);
        let w: Answer = (0..shared).map(want).collect();
        if a != w {
            panic!("{} series have a label in common, and selecting it gives {}, {} of them as they are", shared, a.len(), w.iter().filter(|(s, p)| a.get(*s) == Some(p)).count())
        }
    });
    mc::outcome(format!("{} series", n));
}

/// More series in a chunk than two bytes can number.
pub fn crowds(r: &mut Report) -> Vec<Scenario> {
    let (n, m) = (r.pick(70_000, 300_000), r.pick(8300, 20_000));
    let cfg = Cfg { max_steps: 100_000_000, sched_from_start: false, ..Cfg::default() };
    [KINDS[0], KINDS[1]].iter().map(|kind| {
        let kind = *kind;
        Scenario::new(format!("crowded/{}", kind.name()), cfg.clone(), move || crowd(kind, n, m))
    }).collect()
}

// ---- D08: closed chunks ----

fn closed_histories(kind: Kind, depth: usize) {
    // all operations once closed, and before; the clock long after the window, in it, or before it
    mc::set_clock_ms([mc::START_MS, WINDOW.0 + 500, WINDOW.0 - 5000][mc::choose(3)]);
    mc::session(|| {
        let c = chunk(kind, &mc::root().join("chunk"), WINDOW);
        let mut m = Model { ordered: kind.tikv_storage, ..Default::default() };
        let alphabet = [Op::Put(0, 1, 1), Op::Put(0, 3, 2), Op::Put(0, 1000, 3), Op::Put(1, 0, 4), Op::Put(2, 2, 5), Op::Put(0, 1001, 6), Op::Close];
        let close_at = mc::choose(depth);
        for k in 0..depth {
            let op = if k == close_at { Op::Close } else { alphabet[mc::choose(alphabet.len())] };
            let want = m.step(op);
            let got = perform(&*c, op).unwrap_or_else(|e| panic!("{}", e));
            mc::note(|| format!("{:?} -> {:?}", op, got));
            if want != got {
                panic!("{:?} {} closing is {:?} instead of {:?}", op, if k > close_at { "after" } else { "before" }, got, want)
            }
            for q in [Op::IsClosed, Op::Ask(0), Op::Ask(1), Op::Ask(2)] {
                let want = m.step(q);
                let got = perform(&*c, q).unwrap_or_else(|e| panic!("{}", e));
                if want != got {
                    panic!("after {:?}: {:?} is {:?} instead of {:?}", op, q, got, want)
                }
            }
        }
        mc::outcome(format!("{:?} {:?}", m.cells.values().collect::<Vec<_>>(), m.closed));
    });
}

/// Chunks closed by roll-overs, in a running database.
fn closed_in_db(kind: Kind, depth: usize) {
    let mut rig = Rig::new(kind);
    let mut frozen: BTreeMap<(u64, u64), Answer> = BTreeMap::new();
    let mut left = depth;
    let mut life = 0;
    while left > 0 {
        life += 1;
        mc::session(|| {
            let db = rig.open();
            let t0 = rig.t0;
            loop {
                // what closed chunks answered once, they answer now
                let all = windows(&rig.dir);
                let open = *all.last().unwrap();
                for w in &all {
                    if *w == open {
                        continue;
                    }
                    // the instants that belong to this window only
                    let (a, b) = (w.0 + 1, w.1 - 1);
                    let b = b.min(all.iter().filter(|x| x.0 > w.0).map(|x| x.0 - 1).min().unwrap_or(b));
                    if a > b {
                        continue;
                    }
                    let mut now = Answer::new();
                    for sel in [0, 1] {
                        let got = db.query(labels(SELECTORS[sel]), a, b).unwrap_or_else(|e| panic!("query failed: {}", e));
                        now.extend(normal(&got).unwrap_or_else(|e| panic!("{}", e)));
                    }
                    let was = frozen.entry(*w).or_insert_with(|| now.clone());
                    if *was != now {
                        panic!("the closed chunk {}..{} answered {} and now {}", rel(w.0, t0), rel(w.1, t0), show_answer(was, t0), show_answer(&now, t0))
                    }
                }
                if left == 0 {
                    return;
                }
                left -= 1;
                let old = all[0];
                match mc::choose(6) {
                    0 => {
                        rig.put(&*db, SERIES[0], open.0 + 10 + left as u64);
                    }
                    1 => rig.put(&*db, SERIES[1], old.0 + 20 + left as u64),
                    2 => rig.put(&*db, SERIES[0], old.1),
                    3 => rig.put_many(&*db, SERIES[0], &[old.0 + 30, old.1, open.0 + 40 + left as u64]),
                    4 => {
                        mc::sleep_ms(CHUNK + 1);
                    }
                    _ => {
                        mc::sleep_ms(1200);
                        return;
                    }
                }
            }
        });
        sled::after_crash();
        mc::sleep_ms(7);
    }
    mc::outcome(format!("{} {}", life, frozen.values().map(|a| show_answer(a, rig.t0)).collect::<Vec<_>>().join("|")));
}

pub fn d08(r: &mut Report) {
    use Op::*;
    r.rule("Schedules: every interleaving, within the preemption bound, of writes to known and new series with the closing of their chunk and with queries, which has to be explained by some order of the operations; storage and index do not change after the closing returned. Histories: every sequence of writes up to a depth with the closing at every place, compared after every step. Database: every sequence of writes into the open and into closed windows, batches across both, roll-overs and restarts, up to a depth, after each of which every closed chunk has to answer what it answered when it was first seen closed.");
    let known = vec![Put(0, 1, 0)];
    let shapes: Vec<Shape> = vec![
        ("put|close", known.clone(), vec![vec![Put(0, 5, 1)], vec![Close, Ask(0), Ask(0)]]),
        ("new|close", vec![], vec![vec![Put(0, 5, 1)], vec![Close, Ask(0), Ask(0)]]),
        ("put-put|close", known.clone(), vec![vec![Put(0, 5, 1), Put(1, 6, 2)], vec![Close, IsClosed, Ask(0)]]),
        ("put|put|close", known.clone(), vec![vec![Put(0, 5, 1)], vec![Put(1, 6, 2)], vec![Close, Ask(0)]]),
        ("close|close", known.clone(), vec![vec![Close, Put(0, 5, 1)], vec![Close, IsClosed]]),
        ("put|close|ask", known, vec![vec![Put(0, 5, 1), Ask(0)], vec![Close], vec![IsClosed, Ask(0)]]),
    ];
    let scs = scenarios(r, "closing", &shapes, &KINDS, 1);
    r.explore(scs);
    let mut scs = vec![];
    for kind in KINDS {
        for d in 1..=r.pick(4, 5) {
            scs.push(Scenario::new(format!("histories/{}/{}", kind.name(), d), Cfg::default(), move || closed_histories(kind, d)));
        }
    }
    r.explore(scs);
    let mut scs = vec![];
    for kind in KINDS {
        let d = r.pick(4, 5);
        scs.push(Scenario::new(format!("database/{}/{}", kind.name(), d), Cfg::default(), move || closed_in_db(kind, d)));
    }
    r.explore(scs);
}
