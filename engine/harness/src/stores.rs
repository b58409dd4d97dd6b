//! Checks of the storages and the indexers, on their own.
use crate::core::Report;
use crate::db::*;
use crate::oracle::*;
use monolith::chunk::ChunkOpts;
use monolith::indexer::*;
use monolith::label::{Label, Labels};
use monolith::storage::*;
use monolith::Builder;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use vstd::mc::{self, Cfg, End, Scenario};

const PD: [&str; 1] = ["pd"];

fn side(tikv: bool) -> &'static str {
    if tikv {
        "tikv"
    } else {
        "sled"
    }
}

/// As a restart does: an existing chunk's storage.
fn reopen_storage(tikv: bool, dir: &Path, o: &ChunkOpts) -> Box<dyn AnyStorage> {
    let p = dir.join("storage");
    if tikv {
        let s = tikv_storage(&PD).read_from_chunk(&p, Some(o)).unwrap_or_else(|e| panic!("the storage does not open again: {}", e));
        Box::new(s.expect("no storage"))
    } else {
        let s = SledStorageBuilder::new().read_from_chunk(&p, Some(o)).unwrap_or_else(|e| panic!("the storage does not open again: {}", e));
        Box::new(s.expect("no storage"))
    }
}

fn reopen_indexer(tikv: bool, dir: &Path, o: &ChunkOpts) -> Box<dyn AnyIndexer> {
    let p = dir.join("indexer");
    if tikv {
        let s = tikv_indexer(&PD).read_from_chunk(&p, Some(o)).unwrap_or_else(|e| panic!("the index does not open again: {}", e));
        Box::new(s.expect("no index"))
    } else {
        let s = SledIndexerBuilder::new().read_from_chunk(&p, Some(o)).unwrap_or_else(|e| panic!("the index does not open again: {}", e));
        Box::new(s.expect("no index"))
    }
}

// ---- S01: a storage returns exactly what was written, in the range asked for ----

const IDS: [u64; 3] = [1, 11, u64::MAX];
const STAMPS: [u64; 5] = [0, 1, 255, 256, u64::MAX];
const EDGES: [u64; 9] = [0, 1, 2, 254, 255, 256, 257, u64::MAX - 1, u64::MAX];

type Map = BTreeMap<u64, BTreeMap<u64, u64>>;

fn storage_put(s: &dyn AnyStorage, m: &mut Map, tikv: bool, id: u64, t: u64, v: f64) {
    let late = m.get(&id).and_then(|p| p.keys().next_back().copied()).map_or(false, |l| l >= t);
    let r = s.put(id, t, v);
    mc::note(|| format!("write series {} at {} = {} -> {:?}", id, t, v, r));
    match (r, tikv && late) {
        (Ok(()), false) => {
            m.entry(id).or_default().insert(t, v.to_bits());
        }
        (Err(_), true) => {}
        (Ok(()), true) => panic!("a sample at {} that is not after the last one was accepted", t),
        (Err(e), false) => panic!("a write of series {} at {} failed: {}", id, t, e),
    }
}

fn storage_reads(s: &dyn AnyStorage, m: &Map, when: &str) -> u64 {
    let mut n = 0;
    for id in IDS.iter().chain(&[2]) {
        for a in EDGES {
            for b in EDGES {
                n += 1;
                let want: Vec<(u64, u64)> = match m.get(id) {
                    Some(p) if a <= b => p.range(a..=b).map(|(t, v)| (*t, *v)).collect(),
                    _ => vec![],
                };
                let got = s.read(*id, a, b).unwrap_or_else(|e| panic!("{}: reading series {} in {}..{} failed: {}", when, id, a, b, e));
                if got != want {
                    panic!("{}: series {} in {}..{} reads {:x?} instead of {:x?}", when, id, a, b, got, want)
                }
            }
        }
    }
    n
}

fn storage_history(tikv: bool, depth: usize, real: bool) {
    storage_run(tikv, depth, real, false)
}

fn storage_run(tikv: bool, depth: usize, real: bool, often: bool) {
    sled::use_real(real);
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    let o = ChunkOpts::default();
    let mut m = Map::new();
    let end = mc::session(|| {
        let s = storage_of(tikv, &dir, &PD, &o).unwrap_or_else(|e| panic!("no storage: {}", e));
        for k in 0..depth {
            if often {
                storage_reads(&*s, &m, "between the writes");
            }
            let c = mc::choose(IDS.len() * STAMPS.len());
            storage_put(&*s, &mut m, tikv, IDS[c % IDS.len()], STAMPS[c / IDS.len()], value(k));
        }
        storage_reads(&*s, &m, "after the writes");
    });
    if let End::Crashed = end {
        panic!("ENGINE: crash without a crash point")
    }
    if real {
        return;
    }
    sled::after_exit();
    mc::session(|| {
        let s = reopen_storage(tikv, &dir, &o);
        storage_reads(&*s, &m, "after reopening");
    });
    mc::outcome(format!("{:?}", m));
}

/// Writes and single reads in any order: nothing is asked but what the sequence says.
fn storage_mixed(tikv: bool, depth: usize, ids: &'static [u64], stamps: &'static [u64]) {
    let s = storage_of(tikv, &mc::root().join("chunk"), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no storage: {}", e));
    let mut m = Map::new();
    let ranges = [(0, u64::MAX), (stamps[0], stamps[0]), (stamps[0] + 1, u64::MAX)];
    let mut said = vec![];
    for k in 0..depth {
        let c = mc::choose(ids.len() * (stamps.len() + ranges.len()));
        let (id, c) = (ids[c % ids.len()], c / ids.len());
        if c < stamps.len() {
            storage_put(&*s, &mut m, tikv, id, stamps[c], value(k));
            continue;
        }
        let (a, b) = ranges[c - stamps.len()];
        let want: Vec<(u64, u64)> = m.get(&id).map_or(vec![], |p| p.range(a..=b).map(|(t, v)| (*t, *v)).collect());
        match s.read(id, a, b) {
            Ok(got) if got == want => mc::note(|| format!("read {} in {}..{} -> {} samples", id, a, b, got.len())),
            got => panic!("series {} in {}..{} reads {:x?} instead of {:x?}", id, a, b, got, want),
        }
        said.push(want.len());
    }
    storage_reads(&*s, &m, "at the end");
    mc::outcome(format!("{:?} {:?}", m, said));
}

/// Samples in time order, of few values: equal ones in a row, in turns, after others.
fn storage_values(tikv: bool, depth: u64) {
    let s = storage_of(tikv, &mc::root().join("chunk"), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no storage: {}", e));
    let mut m = Map::new();
    for k in 0..depth {
        let c = mc::choose(2 * PALETTE.len());
        storage_put(&*s, &mut m, tikv, IDS[c % 2], 10 + 10 * k, PALETTE[c / 2]);
    }
    for id in IDS[..2].iter() {
        let all: Vec<(u64, u64)> = m.get(id).map_or(vec![], |p| p.iter().map(|(t, v)| (*t, *v)).collect());
        for (a, b) in (0..=depth).flat_map(|a| (a..=depth).map(move |b| (10 * a + 5, 10 * b + 14))) {
            let want: Vec<(u64, u64)> = all.iter().cloned().filter(|p| a <= p.0 && p.0 <= b).collect();
            let got = s.read(*id, a, b);
            if got.as_ref().ok() != Some(&want) {
                panic!("series {} of {:x?} in {}..{} reads {:x?} instead of {:x?}", id, all, a, b, got, want)
            }
        }
    }
    mc::outcome(format!("{:?}", m));
}

fn sled_conformance(r: &mut Report, name: &str, depth: usize, f: fn(bool, usize, bool)) {
    let before = r.executions();
    r.explore(vec![Scenario::new(format!("real-sled-{}/{}", name, depth), Cfg::default(), move || f(false, depth, true))]);
    r.conformance += r.executions() - before;
}

pub fn s01(r: &mut Report) {
    r.rule("All sequences of writes (3 series x 5 timestamps, including 0, byte boundaries and the largest; values that are easily damaged) of the given depth, then reads of every series, and of an unknown one, over all 81 pairs of boundaries, compared with a map; again after reopening the storage as a restart does. Shorter sequences with the same reads before every write, and longer ones of writes and single reads in any order, and all sequences of samples of four values, equal ones among them. Shorter sequences are replayed on the real sled. Also every count up to a bound of samples of a series, and of series.");
    r.assume("the TiKV model: a linearizable map");
    let mut scs = vec![];
    for tikv in [false, true] {
        for depth in 0..=r.pick(4, 5) {
            scs.push(Scenario::new(format!("storage/{}/{}", side(tikv), depth), Cfg::default(), move || storage_history(tikv, depth, false)));
        }
    }
    r.explore(scs);
    let depth = r.pick(3, 4);
    for tikv in [false, true] {
        r.explore(vec![Scenario::new(format!("reads-between/{}/{}", side(tikv), depth), Cfg::default(), move || storage_run(tikv, depth, false, true))]);
    }
    let depth = r.pick(5, 6);
    for tikv in [false, true] {
        r.explore(vec![Scenario::new(format!("mixed/{}/{}", side(tikv), depth), Cfg::default(), move || storage_mixed(tikv, depth, &[1, 256], &[10, 20]))]);
    }
    let depth = r.pick(4, 6);
    for tikv in [false, true] {
        r.explore(vec![Scenario::new(format!("few-values/{}/{}", side(tikv), depth), Cfg::default(), move || storage_values(tikv, depth))]);
    }
    sled_conformance(r, "storage", r.pick(2, 2), storage_history);
    crate::growth::storages(r);
    // many samples in one series: every insertion order of up to n timestamps
    let n = r.pick(5, 7);
    r.explore(vec![Scenario::new(format!("insertion-orders/sled/{}", n), Cfg::default(), move || {
        let dir = mc::root().join("chunk");
        std::fs::create_dir_all(&dir).unwrap();
        let s = storage_of(false, &dir, &PD, &ChunkOpts::default()).unwrap();
        let mut left: Vec<u64> = (0..n as u64).map(|i| 100 * i).collect();
        let mut want = BTreeMap::new();
        let mut k = 0;
        while !left.is_empty() {
            let t = left.remove(mc::choose(left.len()));
            k += 1;
            s.put(3, t, value(k)).unwrap_or_else(|e| panic!("write failed: {}", e));
            want.insert(t, value(k).to_bits());
            let all: Vec<_> = want.iter().map(|(t, v)| (*t, *v)).collect();
            let got = s.read(3, 0, u64::MAX).unwrap_or_else(|e| panic!("read failed: {}", e));
            if got != all {
                panic!("after writing {:?} in this order the series reads {:?}", want.keys(), got)
            }
            let half: Vec<_> = want.range(t..).map(|(t, v)| (*t, *v)).collect();
            if s.read(3, t, u64::MAX) != Ok(half) {
                panic!("the range from {} on is wrong", t)
            }
        }
        mc::outcome(format!("{:?}", want));
    })]);
}

// ---- S02: the backends are interchangeable ----

fn interchangeable(depth: usize, often: bool, few: bool) {
    let base = mc::root();
    let dirs: Vec<_> = KINDS.iter().enumerate().map(|(i, _)| base.join(format!("db{}", i))).collect();
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    let t0 = mc::now_ms();
    let eps = ["pd0", "pd1", "pd2", "pd3"];
    let chunk = crate::dbchecks::CHUNK;
    let mut left = depth;
    let mut step = 0u64;
    let mut last = [0u64; 3];
    let written = std::cell::RefCell::new(std::collections::BTreeSet::<u64>::new());
    loop {
        let end = mc::session(|| {
            let dbs: Vec<Arc<dyn Base>> = KINDS
                .iter()
                .enumerate()
                .map(|(i, k)| open(&dirs[i], *k, chunk, &eps[i..=i]).unwrap_or_else(|e| panic!("{} does not open: {}", k.name(), e)))
                .collect();
            let compare = |when: &str| {
                let mut all = vec![];
                // every pair of the timestamps written, and ranges around and beside them
                let mut edges: Vec<u64> = written.borrow().iter().cloned().chain([0, t0 + chunk, u64::MAX]).collect();
                edges.sort();
                edges.dedup();
                let mut ranges = vec![(0, u64::MAX), (t0 + 6, u64::MAX), (t0 + 1, t0 + 1), (9, 3)];
                for (i, a) in edges.iter().enumerate() {
                    let b = if depth > 4 { &edges[i..i + 1] } else { &edges[i..] };
                    ranges.extend(b.iter().map(|b| (*a, *b)));
                    ranges.extend([(0, *a), (*a, u64::MAX)].iter().cloned());
                }
                for sel in SELECTORS {
                    for r in ranges.iter().cloned() {
                        let a: Vec<R<Answer>> = dbs.iter().map(|d| d.query(labels(sel), r.0, r.1).and_then(|g| normal(&g))).collect();
                        for (k, x) in KINDS.iter().zip(&a) {
                            if *x != a[0] {
                                panic!("{}: {} answers {:?} where {} answers {:?}", when, k.name(), x, KINDS[0].name(), a[0])
                            }
                        }
                        if r == (0, u64::MAX) && all.len() < SELECTORS.iter().position(|x| *x == sel).unwrap() + 1 {
                            all.push(a[0].clone().unwrap_or_else(|e| panic!("{}", e)));
                        }
                    }
                }
                mc::outcome(all.iter().map(|a| show_answer(a, t0)).collect::<Vec<_>>().join(" | "));
            };
            while left > 0 {
                if often {
                    compare("on the way");
                }
                left -= 1;
                step += 1;
                let w = windows(&dirs[0]);
                let w = *w.last().unwrap();
                // of few values: one series, and the two that are no writes
                let k = mc::choose(if few { PALETTE.len() + 2 } else { 9 });
                let (k, v) = match k.checked_sub(PALETTE.len()) {
                    _ if !few => (k, value(step as usize)),
                    None => (0, PALETTE[k]),
                    Some(k) => (7 + k, 0.0),
                };
                // every next sample is later than the ones before, unless it is out of the window
                let t = match k {
                    0..=2 => w.0 + 10 * step,
                    3 | 4 => w.1 - 100 + step,
                    5 => w.0 - 1,
                    _ => w.1 + step,
                };
                let s = SERIES[k % 3];
                let res: Vec<bool> = match k {
                    0..=5 => dbs.iter().map(|d| d.put(labels(s), monolith::time_point::TimePoint::new(t, v)).is_ok()).collect(),
                    6 => {
                        let p: Vec<_> = [w.0 - 1, w.0 + 10 * step, w.0 + 10 * step + 1, w.1 + 7]
                            .iter()
                            .enumerate()
                            .map(|(i, t)| monolith::time_point::TimePoint::new(*t, value(i + step as usize)))
                            .collect();
                        dbs.iter().map(|d| d.put_many(labels(SERIES[0]), p.clone()).is_ok()).collect()
                    }
                    7 => {
                        mc::sleep_ms(chunk + 1);
                        continue;
                    }
                    _ => {
                        mc::note(|| "restart".into());
                        mc::sleep_ms(1200);
                        return true;
                    }
                };
                mc::note(|| format!("operation {} at {} -> {:?}", k, rel(t, t0), res));
                // a sample that is not after the last one of its series: the backends may differ from here on
                let (which, from, to) = match k {
                    6 => (0, w.0 + 10 * step, w.0 + 10 * step + 1),
                    _ => (k % 3, t, t),
                };
                if from <= last[which] && k != 5 {
                    left = 0;
                    return false;
                }
                if res.iter().any(|x| *x != res[0]) {
                    panic!("the same write is accepted or refused depending on the backend: {:?}", res)
                }
                if res[0] {
                    last[which] = to;
                    written.borrow_mut().extend([from, to].iter().cloned());
                }
            }
            compare("at the end");
            false
        });
        match end {
            End::Done(again) => {
                sled::after_exit();
                mc::sleep_ms(7);
                if !again {
                    return;
                }
            }
            End::Crashed => panic!("ENGINE: crash without a crash point"),
        }
    }
}

pub fn s02(r: &mut Report) {
    r.rule("All histories of the given depth over {single writes in time order inside, at the end of and outside the open window, batches across both its ends, roll-over, restart}, run in step on all four pairs of backends; every write is accepted or refused by all alike, and every query is answered alike. Histories that write a series out of time order are cut there: that is where the storages differ. Longer histories of one series with four values, equal ones among them.");
    let depth = r.pick(4, 6);
    let mut scs = vec![];
    for d in 1..=depth {
        scs.push(Scenario::new(format!("in-step/{}", d), Cfg { max_steps: 400_000, sched_from_start: false, ..Cfg::default() }, move || interchangeable(d, d == 3, false)));
    }
    let d = r.pick(5, 6);
    scs.push(Scenario::new(format!("few-values/{}", d), Cfg { max_steps: 400_000, sched_from_start: false, ..Cfg::default() }, move || interchangeable(d, false, true)));
    r.explore(scs);
}

// ---- S03: one TiKV cluster, many chunks and databases ----

fn shared(kinds: [Kind; 2], pds: [[&'static str; 1]; 2], depth: usize) {
    let dirs = [mc::root().join("one"), mc::root().join("two")];
    let chunk = crate::dbchecks::CHUNK;
    let t0 = mc::now_ms();
    let mut hist = [Hist::default(), Hist::default()];
    let mut last: BTreeMap<(usize, u64, usize), u64> = BTreeMap::new();
    let mut step = 0usize;
    let mut left = depth;
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    loop {
        let end = mc::session(|| {
            let mut order = vec![0, 1];
            if pds[0] != pds[1] && mc::choose(2) == 1 {
                order.reverse();
            }
            let mut dbs: Vec<(usize, Arc<dyn Base>)> = order
                .into_iter()
                .map(|i| (i, open(&dirs[i], kinds[i], chunk, &pds[i]).unwrap_or_else(|e| panic!("database {} does not open: {}", i, e))))
                .collect();
            dbs.sort_by_key(|d| d.0);
            let dbs: Vec<Arc<dyn Base>> = dbs.into_iter().map(|d| d.1).collect();
            while left > 0 {
                left -= 1;
                step += 1;
                let k = mc::choose(6);
                if k == 4 {
                    mc::sleep_ms(chunk + 1);
                    continue;
                }
                if k == 5 {
                    mc::sleep_ms(1200);
                    return true;
                }
                let (db, s) = (k % 2, k / 2);
                let w = *windows(&dirs[db]).last().unwrap();
                let t = w.0 + 10 + step as u64;
                let v = value(step);
                last.insert((db, w.0, s), t);
                dbs[db]
                    .put(labels(SERIES[s]), monolith::time_point::TimePoint::new(t, v))
                    .unwrap_or_else(|e| panic!("write to database {} failed: {}", db, e));
                hist[db].done(&set(SERIES[s]), t, v, mc::now_ms());
                mc::note(|| format!("database {}: write {} {}", db, show_set(&set(SERIES[s])), rel(t, t0)));
            }
            for (i, db) in dbs.iter().enumerate() {
                let a = full(&**db, &hist[i], t0, &format!("database {}", i));
                for sel in SELECTORS {
                    ask(&**db, &hist[i], sel, (0, u64::MAX), t0, &format!("database {}", i));
                }
                mc::outcome(show_answer(&a, t0));
            }
            false
        });
        match end {
            End::Done(again) => {
                sled::after_exit();
                mc::sleep_ms(7);
                if !again {
                    return;
                }
            }
            End::Crashed => panic!("ENGINE: crash without a crash point"),
        }
    }
}

/// Components made at the same time get identifiers of their own.
fn made_together() {
    let o = [Arc::new(ChunkOpts::default()), Arc::new(ChunkOpts::default())];
    mc::sched(true);
    let hs: Vec<_> = (0..2)
        .map(|i| {
            let o = o[i].clone();
            let dir = mc::root().join(format!("c{}", i));
            vstd::thread::spawn(move || {
                let s = storage_of(true, &dir, &PD, &o).unwrap_or_else(|e| panic!("{}", e));
                let x = indexer_of(true, &dir, &PD, &o).unwrap_or_else(|e| panic!("{}", e));
                x.create(labels(SERIES[i]), 1).unwrap_or_else(|e| panic!("{}", e));
                s.put(1, 10 + i as u64, 1.0).unwrap_or_else(|e| panic!("{}", e));
                (s, x)
            })
        })
        .collect();
    let made: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    mc::sched(false);
    for (i, (s, x)) in made.iter().enumerate() {
        let dir = mc::root().join(format!("c{}", i));
        let again: (Box<dyn AnyStorage>, Box<dyn AnyIndexer>) = (reopen_storage(true, &dir, &o[i]), reopen_indexer(true, &dir, &o[i]));
        for (s, x, when) in [(s, x, ""), (&again.0, &again.1, " after reopening")] {
            let want = vec![(10 + i as u64, 1.0f64.to_bits())];
            if s.read(1, 0, u64::MAX) != Ok(want) {
                panic!("chunk {} reads {:?}{}", i, s.read(1, 0, u64::MAX), when)
            }
            if x.exact(labels(SERIES[i])) != Ok(Some(1)) || x.exact(labels(SERIES[1 - i])) != Ok(None) {
                panic!("chunk {} has the index of another{}", i, when)
            }
        }
    }
}

pub fn s03(r: &mut Report) {
    r.rule("Two databases on one TiKV cluster: all histories of the given depth over {write of one of two series to one of them, roll-over, restart of both}, after which each answers every selector with exactly its own samples; the same with a cluster for each of the two, opened in either order; and all schedules of two chunks being created and written to at the same time on one cluster. Also every count up to a bound of chunks on one cluster.");
    r.assume("the TiKV model: a linearizable map without transactions");
    let mut scs = vec![];
    for (a, b) in [(KINDS[1], KINDS[1]), (KINDS[1], KINDS[2]), (KINDS[3], KINDS[1])] {
        for d in 1..=r.pick(5, 6) {
            scs.push(Scenario::new(
                format!("shared/{}+{}/{}", a.name(), b.name(), d),
                Cfg { max_steps: 400_000, sched_from_start: false, ..Cfg::default() },
                move || shared([a, b], [PD, PD], d),
            ));
        }
        for d in 1..=r.pick(4, 5) {
            scs.push(Scenario::new(
                format!("two-clusters/{}+{}/{}", a.name(), b.name(), d),
                Cfg { max_steps: 400_000, sched_from_start: false, ..Cfg::default() },
                move || shared([a, b], [PD, ["another pd"]], d),
            ));
        }
    }
    r.explore(scs);
    r.explore(vec![Scenario::new(
        "made-together",
        Cfg { preemptions: r.pick(2, 4), sched_from_start: false, ..Cfg::default() },
        made_together,
    )]);
    crate::growth::clusters(r);
}

// ---- I01: label selection ----

fn universe(keys: usize) -> Vec<Vec<(&'static str, &'static str)>> {
    let k = ["a", "b", "c"];
    let mut v = vec![];
    if keys == 0 {
        // empty names and values
        for e in ["", "1", "11"] {
            for l in [vec![("a", e)], vec![("", e)], vec![("a", e), ("b", "1")]] {
                v.push(l);
            }
        }
        return v;
    }
    for code in 1..3usize.pow(keys as u32) {
        let mut c = code;
        let mut l = vec![];
        for key in &k[..keys] {
            match c % 3 {
                1 => l.push((*key, "1")),
                2 => l.push((*key, "2")),
                _ => {}
            }
            c /= 3;
        }
        v.push(l);
    }
    v
}

fn check_selection(x: &dyn AnyIndexer, have: &[(u64, Vec<(&str, &str)>)], sels: &[Vec<(&str, &str)>], when: &str) {
    for sel in sels {
        let want: Vec<(u64, Set)> = have.iter().filter(|(_, l)| set(sel).is_subset(&set(l))).map(|(i, l)| (*i, set(l))).collect();
        let got = x.with(labels(sel)).unwrap_or_else(|e| panic!("{}: selecting {:?} failed: {}", when, sel, e));
        let ids: Vec<u64> = want.iter().map(|w| w.0).collect();
        let mut sorted = got.clone();
        sorted.sort();
        if sorted != ids {
            panic!("{}: {:?} selects the series {:?} instead of {:?} (of {:?})", when, sel, got, ids, have)
        }
        let mut meta: Vec<(u64, Set)> = x
            .meta(labels(sel))
            .unwrap_or_else(|e| panic!("{}: selecting {:?} failed: {}", when, sel, e))
            .iter()
            .map(|(i, l)| (*i, set_of(l)))
            .collect();
        meta.sort();
        if meta != want {
            panic!("{}: {:?} selects {:?} instead of {:?}", when, sel, meta, want)
        }
        if set(sel).len() == sel.len() {
            let want = have.iter().find(|(_, l)| set(l) == set(sel)).map(|h| h.0);
            let got = x.exact(labels(sel)).unwrap_or_else(|e| panic!("{}: looking up {:?} failed: {}", when, sel, e));
            if got != want {
                panic!("{}: the series with exactly {:?} is {:?} instead of {:?}", when, sel, got, want)
            }
        }
    }
}

fn selections(tikv: bool, keys: usize, n: usize, first_id: u64, step: u64, real: bool) {
    sled::use_real(real);
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    let o = ChunkOpts::default();
    let uni = universe(keys);
    let mut have: Vec<(u64, Vec<(&str, &str)>)> = vec![];
    let mut sels = uni.clone();
    sels.push(vec![("a", "3")]);
    sels.push(vec![("zz", "1")]);
    sels.push(vec![("a", "1"), ("zz", "1")]);
    sels.push(vec![("zz", "1"), ("b", "2")]);
    sels.push(vec![("a", "1"), ("a", "2")]);
    sels.push(vec![("a", "1"), ("a", "1")]);
    sels.push(vec![("b", "1"), ("a", "1")]);
    mc::session(|| {
        let x = indexer_of(tikv, &dir, &PD, &o).unwrap_or_else(|e| panic!("no index: {}", e));
        for k in 0..n {
            check_selection(&*x, &have, &sels, "on the way");
            let free: Vec<_> = uni.iter().filter(|u| !have.iter().any(|h| h.1 == **u)).collect();
            let mut l = free[mc::choose(free.len())].clone();
            if k % 2 == 1 {
                l.reverse();
            }
            let id = first_id + step * k as u64;
            x.create(labels(&l), id).unwrap_or_else(|e| panic!("indexing {:?} failed: {}", l, e));
            have.push((id, uni.iter().find(|u| set(u) == set(&l)).unwrap().clone()));
        }
        check_selection(&*x, &have, &sels, "at the end");
    });
    if real {
        return;
    }
    sled::after_exit();
    mc::session(|| {
        let x = reopen_indexer(tikv, &dir, &o);
        check_selection(&*x, &have, &sels[sels.len() - 8..], "after reopening");
    });
    mc::outcome(format!("{:?}", have));
}

/// New series and single questions in any order: nothing is asked but what the sequence says.
fn selection_mixed(tikv: bool, depth: usize) {
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    let x = indexer_of(tikv, &dir, &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no index: {}", e));
    let sets: [Vec<(&str, &str)>; 3] = [vec![("a", "1")], vec![("a", "1"), ("b", "1")], vec![("b", "1"), ("c", "1")]];
    let asked: [Vec<(&str, &str)>; 4] = [vec![("a", "1")], vec![("b", "1")], vec![("b", "1"), ("a", "1")], vec![("c", "1")]];
    let mut have: Vec<(u64, Vec<(&str, &str)>)> = vec![];
    let mut said = vec![];
    for k in 0..depth {
        let free: Vec<_> = sets.iter().filter(|s| !have.iter().any(|h| h.1 == **s)).cloned().collect();
        let c = mc::choose(free.len() + 3 * asked.len());
        if c < free.len() {
            let id = 9 + k as u64;
            x.create(labels(&free[c]), id).unwrap_or_else(|e| panic!("indexing {:?} failed: {}", free[c], e));
            mc::note(|| format!("series {} is {:?}", id, free[c]));
            have.push((id, free[c].clone()));
            continue;
        }
        let c = c - free.len();
        let sel = &asked[c / 3];
        let want: Vec<u64> = have.iter().filter(|h| set(sel).is_subset(&set(&h.1))).map(|h| h.0).collect();
        let got: R<Vec<u64>> = match c % 3 {
            0 => x.with(labels(sel)),
            1 => x.meta(labels(sel)).map(|m| m.iter().map(|m| m.0).collect()),
            _ => x.exact(labels(sel)).map(|i| i.into_iter().collect()),
        };
        let want = if c % 3 == 2 { have.iter().filter(|h| set(sel) == set(&h.1)).map(|h| h.0).collect() } else { want };
        let mut got = got.unwrap_or_else(|e| panic!("asking for {:?} failed: {}", sel, e));
        got.sort();
        mc::note(|| format!("{} {:?} -> {:?}", ["with", "meta", "exactly"][c % 3], sel, got));
        if got != want {
            panic!("asking for {:?} ({}) gives {:?} instead of {:?}, of {:?}", sel, ["with", "meta", "exactly"][c % 3], got, want, have)
        }
        said.push(want);
    }
    let sels = asked.to_vec();
    check_selection(&*x, &have, &sels, "at the end");
    mc::outcome(format!("{:?} {:?}", have, said));
}

fn i01_real(_: bool, n: usize, _: bool) {
    selections(false, 2, n, 9, 1, true)
}

pub fn i01(r: &mut Report) {
    r.rule("All sequences of distinct label sets (over 2 and 3 label names with 2 values each; and with empty names and values) registered as series; before the first and after each of them every label set of the universe, unknown labels, labels mixed with unknown ones, contradictory, repeated and reordered labels as selectors, by subset and by exact match, compared with subset tests; again after reopening. Sequences of registrations and single questions in any order. Also all 26 label sets of the universe at once, with ids across decimal and byte boundaries. Also every count up to a bound of series with a label in common, and of labels.");
    let mut scs = vec![];
    for tikv in [false, true] {
        for (first, step) in [(1u64, 1u64), (9, 1), (255, 1)] {
            scs.push(Scenario::new(format!("select/{}/2names/ids{}", side(tikv), first), Cfg::default(), move || selections(tikv, 2, 3, first, step, false)));
        }
        scs.push(Scenario::new(format!("select/{}/empty", side(tikv)), Cfg::default(), move || selections(tikv, 0, 3, 1, 1, false)));
        let n = r.pick(3, 4);
        scs.push(Scenario::new(format!("select/{}/3names", side(tikv)), Cfg::default(), move || selections(tikv, 3, n, 99, 1, false)));
        for (first, step) in [(1u64, 1u64), (250, 1), (u64::MAX - 1000, 7)] {
            scs.push(Scenario::new(format!("select-all/{}/ids{}", side(tikv), first), Cfg::default(), move || {
                let dir = mc::root().join("chunk");
                std::fs::create_dir_all(&dir).unwrap();
                let x = indexer_of(tikv, &dir, &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no index: {}", e));
                let uni = universe(3);
                let at = mc::choose(uni.len());
                let mut have = vec![];
                for k in 0..uni.len() {
                    let l = uni[(k * 7 + at) % uni.len()].clone();
                    let id = first + step * k as u64;
                    x.create(labels(&l), id).unwrap_or_else(|e| panic!("indexing {:?} failed: {}", l, e));
                    have.push((id, l));
                }
                check_selection(&*x, &have, &uni, "with every label set");
                mc::outcome(format!("{}", at));
            }));
        }
    }
    r.explore(scs);
    let depth = r.pick(4, 5);
    for tikv in [false, true] {
        r.explore(vec![Scenario::new(format!("mixed/{}/{}", side(tikv), depth), Cfg::default(), move || selection_mixed(tikv, depth))]);
    }
    sled_conformance(r, "select", 2, i01_real);
    crate::growth::indexes(r);
}

// ---- I03: the identity of label sets ----

const ODD: [&str; 13] = [",", "=", "\\", "R", "L", "I", "a", "1", "\"", "é", "\n", "\0", " "];

fn words(n: usize, upto: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for c in &ODD[..upto] {
                next.push(format!("{}{}", w, c));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

type Owned = Vec<(String, String)>;

fn to_labels(l: &Owned) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())
}

fn identity(tikv: bool, all: &[Owned]) {
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    let x = indexer_of(tikv, &dir, &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no index: {}", e));
    let back = mc::choose(2) == 1;
    let n = all.len();
    for k in 0..n {
        let i = if back { n - 1 - k } else { k };
        let l = to_labels(&all[i]);
        match x.exact(l.clone()) {
            Ok(None) => {}
            other => panic!("{:?}, which was never stored, is found: {:?}", all[i], other),
        }
        x.create(l, 1 + k as u64).unwrap_or_else(|e| panic!("indexing {:?} failed: {}", all[i], e));
    }
    for k in 0..n {
        let i = if back { n - 1 - k } else { k };
        let id = 1 + k as u64;
        let mut turned = all[i].clone();
        turned.reverse();
        for l in [&all[i], &turned] {
            match x.exact(to_labels(l)) {
                Ok(Some(got)) if got == id => {}
                other => panic!("{:?} is series {}, but looking it up gives {:?}", l, id, other),
            }
            let m = x.meta(to_labels(l)).unwrap_or_else(|e| panic!("selecting {:?} failed: {}", l, e));
            let want: BTreeSet<(String, String)> = l.iter().cloned().collect();
            if !m.iter().any(|(i, s)| *i == id && set_of(s) == want && s.len() == l.len()) {
                panic!("selecting {:?} does not give that series with these labels, but {:?}", l, m.iter().map(|(i, s)| (*i, show(s))).collect::<Vec<_>>())
            }
            for (i, s) in &m {
                if !want.is_subset(&set_of(s)) {
                    panic!("selecting {:?} gives series {} with {}", l, i, show(s))
                }
            }
        }
    }
    mc::outcome(format!("{} label sets", n));
}

const COMMON: (&str, &str) = ("z~", "1");

/// As `identity`, in a database: every series in two windows, asked for before and after a restart.
fn identity_in_db(kind: Kind, all: &[Owned]) {
    let mut rig = crate::dbchecks::Rig::new(kind);
    let sets: Vec<Vec<(&str, &str)>> = all.iter().map(|s| s.iter().map(|(k, v)| (k.as_str(), v.as_str())).chain(Some(COMMON)).collect()).collect();
    let t0 = rig.t0;
    mc::session(|| {
        let db = rig.open();
        for turn in 0..2 {
            let w = rig.window();
            for k in 0..sets.len() {
                let s = &sets[if turn == 0 { k } else { sets.len() - 1 - k }];
                rig.put_in(&*db, s, w.0 + 1 + k as u64, w);
            }
            if turn == 0 {
                mc::sleep_ms(rig.chunk + 1);
            }
        }
        for s in &sets {
            ask(&*db, &rig.hist, s, (0, u64::MAX), t0, "in the open and a closed window");
        }
        ask(&*db, &rig.hist, &[COMMON], (0, u64::MAX), t0, "in the open and a closed window");
        mc::sleep_ms(1200);
    });
    sled::after_crash();
    mc::sleep_ms(7);
    mc::session(|| {
        let db = rig.open();
        ask(&*db, &rig.hist, &[COMMON], (0, u64::MAX), t0, "after a restart");
        for s in &sets {
            ask(&*db, &rig.hist, s, (0, u64::MAX), t0, "after a restart");
        }
    });
    mc::outcome(format!("{} label sets", sets.len()));
}

pub fn i03(r: &mut Report) {
    r.rule("Families of label sets whose names and values are all words (up to the given length, including the empty one) over separators, escapes, key prefixes, quotes, control and non-ASCII characters, or are easily taken for one another (case, blanks, Unicode forms, numbers, lengths), or are long and differ in one place: all single labels, and all pairs of labels, of each family are registered in one index in both orders, and each is then looked up and selected: it is its own series, keeps its labels, and matches nothing else; also in databases, where each is written in two windows and asked for before and after a restart.");
    let w1 = words(1, 13);
    let w2 = if r.thorough { words(3, 7) } else { words(2, 13) };
    let mut fams: Vec<(String, Vec<Owned>)> = vec![];
    // one label
    let mut f = vec![];
    for k in &w2 {
        for v in &w2 {
            f.push(vec![(k.clone(), v.clone())]);
        }
    }
    for (i, c) in f.chunks(r.pick(700, 1500)).enumerate() {
        fams.push((format!("one-label/{}", i), c.to_vec()));
    }
    // texts that are easily taken for one another
    let odd = crate::core::lookalikes();
    let mut f = vec![];
    for k in &odd {
        for v in &odd {
            f.push(vec![(k.clone(), v.clone())]);
        }
    }
    for (i, c) in f.chunks(r.pick(700, 1500)).enumerate() {
        fams.push((format!("lookalikes/{}", i), c.to_vec()));
    }
    // names that look like the start of another label set
    let mut f = vec![];
    for (i, k) in w1.iter().enumerate() {
        for k2 in &w1[i + 1..] {
            for v in &w1[..9] {
                for v2 in &w1[..r.pick(5, 13)] {
                    f.push(vec![(k.clone(), v.clone()), (k2.clone(), v2.clone())]);
                }
            }
        }
    }
    for (i, c) in f.chunks(r.pick(700, 1500)).enumerate() {
        fams.push((format!("two-labels/{}", i), c.to_vec()));
    }
    // one and two labels together: those that could be taken for each other
    let tricky = ["a", "1", "1,b=2", "a=1,b", "a\\", "R", "Ra", "\\R", "\\,", "=", ",", "", "\\"];
    let mut f = vec![];
    for k in tricky {
        for v in tricky {
            f.push(vec![(k.to_string(), v.to_string())]);
            for k2 in ["b", "c,", "\\b", "b=2"] {
                for v2 in ["2", "2,c=3", "", "\\", ","] {
                    f.push(vec![(k.to_string(), v.to_string()), (k2.to_string(), v2.to_string())]);
                }
            }
        }
    }
    for (i, c) in f.chunks(1500).enumerate() {
        fams.push((format!("mixed/{}", i), c.to_vec()));
    }
    // long texts that differ in one place only, or in their length
    let mut lengths: Vec<usize> = vec![20, 40, 50, 100, 200, 250, 500, 1000, 2000, 4000, 10_000];
    for b in 3..=r.pick(14, 17) {
        lengths.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    for (n, c) in lengths.chunks(12).enumerate() {
        let mut f = vec![];
        for len in c {
            let text = |other: Option<usize>| -> String { (0..*len).map(|i| if other == Some(i) { 'Z' } else { (b'a' + (i % 23) as u8) as char }).collect() };
            for t in [text(None), text(Some(0)), text(Some(len / 2)), text(Some(len - 1)), text(None)[..len - 1].to_string() + "~~"] {
                f.push(vec![("k".to_string(), t.clone())]);
                f.push(vec![(t.clone(), "v".to_string())]);
                f.push(vec![("k".to_string(), t.clone()), ("l".to_string(), t.clone())]);
                f.push(vec![("k".to_string(), t.clone()), ("l".to_string(), text(None))]);
                f.push(vec![("j".to_string(), text(None)), ("k".to_string(), t.clone())]);
            }
        }
        // some are the same
        let mut seen = BTreeSet::new();
        f.retain(|l| seen.insert(l.clone()));
        fams.push((format!("long/{}", n), f));
    }
    let mut scs = vec![];
    let mut dbs = vec![];
    for (name, f) in fams {
        for (n, some) in f.chunks(600).enumerate() {
            for kind in [KINDS[0], KINDS[3]] {
                let some = some.to_vec();
                dbs.push(Scenario::new(
                    format!("database/{}/{}/{}", kind.name(), name, n),
                    Cfg { max_steps: 50_000_000, ..Cfg::default() },
                    move || identity_in_db(kind, &some),
                ));
            }
        }
        let f = Arc::new(f);
        for tikv in [false, true] {
            let f = f.clone();
            scs.push(Scenario::new(
                format!("identity/{}/{}", side(tikv), name),
                Cfg { max_steps: 5_000_000, ..Cfg::default() },
                move || identity(tikv, &f),
            ));
        }
    }
    r.explore(scs);
    r.explore(dbs);
}

// ---- I04: the index is complete before it is acknowledged ----

/// What an index may contain: those acknowledged in full, the interrupted one in full or invisible.
fn check_index(x: &dyn AnyIndexer, acked: &[(u64, usize)], maybe: &[(u64, usize)], when: &str) {
    for sel in SELECTORS {
        let ids = x.with(labels(sel)).unwrap_or_else(|e| panic!("{}: selecting {:?} failed: {}", when, sel, e));
        let meta = x.meta(labels(sel)).unwrap_or_else(|e| panic!("{}: selecting {:?} failed: {}", when, sel, e));
        for (id, s) in acked {
            if set(sel).is_subset(&set(SERIES[*s])) && (!ids.contains(id) || !meta.iter().any(|(i, l)| i == id && set_of(l) == set(SERIES[*s]))) {
                panic!("{}: series {} ({:?}), whose indexing was acknowledged, is not found by {:?}", when, id, SERIES[*s], sel)
            }
        }
        let mut seen = BTreeSet::new();
        for id in &ids {
            let known = acked.iter().chain(maybe).find(|a| a.0 == *id);
            match known {
                Some((_, s)) if set(sel).is_subset(&set(SERIES[*s])) => {}
                _ => panic!("{}: {:?} selects series {}, which does not have these labels", when, sel, id),
            }
            if !seen.insert(*id) {
                panic!("{}: {:?} selects series {} twice", when, sel, id)
            }
        }
        for (id, l) in &meta {
            let s = acked.iter().chain(maybe).find(|a| a.0 == *id).map(|a| a.1);
            if s.map(|s| set(SERIES[s])) != Some(set_of(l)) {
                panic!("{}: series {} is listed with the labels {}", when, id, show(l))
            }
        }
    }
    for (s, l) in SERIES.iter().enumerate() {
        let got = x.exact(labels(l)).unwrap_or_else(|e| panic!("{}: looking up {:?} failed: {}", when, l, e));
        let must = acked.iter().find(|a| a.1 == s).map(|a| a.0);
        match (got, must) {
            (g, Some(m)) if g != Some(m) => panic!("{}: {:?} is series {}, but looking it up gives {:?}", when, l, m, g),
            (Some(g), None) => {
                if !maybe.contains(&(g, s)) {
                    panic!("{}: {:?}, which was never indexed, is series {}", when, l, g)
                }
                // once it is taken to be indexed it has to be so in full
                for one in l.iter() {
                    if !x.with(labels(&[*one])).map_or(false, |v| v.contains(&g)) {
                        panic!("{}: {:?} is taken to be indexed as {}, but {:?} does not find it", when, l, g, one)
                    }
                }
                if !x.meta(labels(l)).map_or(false, |v| v.iter().any(|(i, m)| *i == g && set_of(m) == set(l))) {
                    panic!("{}: {:?} is taken to be indexed as {}, but its labels are not there", when, l, g)
                }
            }
            _ => {}
        }
    }
}

fn indexing(tikv: bool, crash: bool) {
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    let o = ChunkOpts::default();
    let mut acked: Vec<(u64, usize)> = vec![];
    let mut maybe: Vec<(u64, usize)> = vec![];
    let mut id = 0;
    mc::session(|| {
        let x = indexer_of(tikv, &dir, &PD, &o).unwrap_or_else(|e| panic!("no index: {}", e));
        mc::crashes(crash);
        mc::faults(!crash);
        for s in [0, 1, 2] {
            for _ in 0..3 {
                id += 1;
                maybe.push((id, s));
                let r = x.create(labels(SERIES[s]), id);
                mc::note(|| format!("index {:?} as {} -> {:?}", SERIES[s], id, r));
                if r.is_ok() {
                    maybe.retain(|m| m.0 != id);
                    acked.push((id, s));
                    break;
                }
                if mc::faults_used() == 0 {
                    panic!("indexing failed without a reason: {:?}", r)
                }
                // as a chunk does: it looks the labels up before it indexes them again
                match x.exact(labels(SERIES[s])) {
                    Ok(Some(g)) => {
                        if !maybe.contains(&(g, s)) {
                            panic!("{:?} is taken to be series {}", SERIES[s], g)
                        }
                        maybe.retain(|m| m.0 != g);
                        acked.push((g, s));
                        break;
                    }
                    _ => {}
                }
            }
        }
        mc::crashes(false);
        mc::faults(false);
        check_index(&*x, &acked, &maybe, "in the same process");
    });
    mc::crashes(false);
    mc::faults(false);
    sled::after_crash();
    mc::session(|| {
        // a crash may have come before there was an index
        let x = if tikv { reopen_indexer(true, &dir, &o) } else { indexer_of(false, &dir, &PD, &o).unwrap_or_else(|e| panic!("the index does not open: {}", e)) };
        check_index(&*x, &acked, &maybe, "after the process died");
        for s in [0, 1, 2] {
            match x.exact(labels(SERIES[s])) {
                Ok(Some(g)) => {
                    maybe.retain(|m| m.0 != g);
                    acked.retain(|m| m.1 != s);
                    acked.push((g, s));
                }
                Ok(None) => {
                    id += 1;
                    x.create(labels(SERIES[s]), id).unwrap_or_else(|e| panic!("{:?} cannot be indexed again: {}", SERIES[s], e));
                    acked.push((id, s));
                }
                Err(e) => panic!("{}", e),
            }
        }
        check_index(&*x, &acked, &maybe, "once all are indexed");
        // a label set that is indexed is not indexed a second time
        for s in [0, 1, 2] {
            let _ = x.create(labels(SERIES[s]), 77);
        }
    });
    mc::outcome(format!("{:?} {:?}", acked, maybe));
}

pub fn i04(r: &mut Report) {
    r.rule("Three series that share labels are indexed, with a crash before every change (then every surviving prefix of what was not flushed), or with every placement of up to three failing calls (four thorough; including TiKV puts that take effect but are answered with an error), each failed one looked up and tried again as a chunk does; then, in the same process and after its death: an acknowledged series is found by its label set and by each of its labels, an interrupted one either is found in all those ways or not taken to be indexed, and it can be indexed again.");
    r.assume("sled recovers a prefix of its changes that includes what was flushed");
    let mut scs = vec![];
    for tikv in [false, true] {
        scs.push(Scenario::new(format!("index-crash/{}", side(tikv)), Cfg { crashes: 1, ..Cfg::default() }, move || indexing(tikv, true)));
        let f = r.pick(3, 4);
        scs.push(Scenario::new(format!("index-failure/{}", side(tikv)), Cfg { faults: f, ..Cfg::default() }, move || indexing(tikv, false)));
    }
    r.explore(scs);
}
