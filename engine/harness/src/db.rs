//! A database under test, opened on any pair of backends, and the history it has to account for.
use crate::oracle::*;
use monolith::chunk::ChunkOpts;
use monolith::indexer::*;
use monolith::label::Labels;
use monolith::option::DbOpts;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::{Builder, MonolithDb, TiKvRawBackendSingleton};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use vstd::mc;

pub type R<T> = Result<T, String>;

pub trait Base: Send + Sync {
    fn put(&self, l: Labels, p: TimePoint) -> R<()>;
    fn put_many(&self, l: Labels, p: Vec<TimePoint>) -> R<()>;
    fn query(&self, l: Labels, a: u64, b: u64) -> R<Vec<(Labels, Vec<TimePoint>)>>;
}

struct W<S, I>(Arc<MonolithDb<S, I>>)
where
    S: Storage + Send + Sync + 'static,
    I: Indexer + Send + Sync + 'static;

impl<S, I> Base for W<S, I>
where
    S: Storage + Send + Sync + 'static,
    I: Indexer + Send + Sync + 'static,
{
    fn put(&self, l: Labels, p: TimePoint) -> R<()> {
        self.0.write_time_point(l, p).map_err(|e| e.to_string())
    }
    fn put_many(&self, l: Labels, p: Vec<TimePoint>) -> R<()> {
        self.0.write_time_points(l, p).map_err(|e| e.to_string())
    }
    fn query(&self, l: Labels, a: u64, b: u64) -> R<Vec<(Labels, Vec<TimePoint>)>> {
        self.0.query(l, a, b).map_err(|e| e.to_string())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kind {
    pub tikv_storage: bool,
    pub tikv_indexer: bool,
}

pub const KINDS: [Kind; 4] = [
    Kind { tikv_storage: false, tikv_indexer: false },
    Kind { tikv_storage: true, tikv_indexer: true },
    Kind { tikv_storage: true, tikv_indexer: false },
    Kind { tikv_storage: false, tikv_indexer: true },
];

impl Kind {
    pub fn name(&self) -> &'static str {
        match (self.tikv_storage, self.tikv_indexer) {
            (false, false) => "sled",
            (true, true) => "tikv",
            (true, false) => "tikv-storage+sled-indexer",
            (false, true) => "sled-storage+tikv-indexer",
        }
    }
    /// After how long an acknowledged sample has to survive the death of the process.
    pub fn lag(&self) -> u64 {
        if self.tikv_storage {
            0
        } else {
            1000
        }
    }
}

pub fn backend(endpoints: &[&str]) -> TiKvRawBackendSingleton {
    let v: Vec<String> = endpoints.iter().map(|s| s.to_string()).collect();
    TiKvRawBackendSingleton::new(tikv_client::Config::new(v)).expect("backend")
}

pub fn tikv_storage(endpoints: &[&str]) -> Box<dyn Builder<TiKvStorage> + Send + Sync> {
    Box::new(TiKvStorageBuilder::new(backend(endpoints)).expect("storage builder"))
}

pub fn tikv_indexer(endpoints: &[&str]) -> Box<dyn Builder<TiKvIndexer> + Send + Sync> {
    Box::new(TiKvIndexerBuilder::new(backend(endpoints)).expect("indexer builder"))
}

pub fn opts(dir: &Path, kind: Kind, chunk_ms: u64) -> DbOpts {
    let n = |t: bool| if t { "tikv" } else { "sled" }.to_string();
    DbOpts {
        storage: n(kind.tikv_storage),
        indexer: n(kind.tikv_indexer),
        base_dir: dir.to_path_buf(),
        chunk_size: Duration::from_millis(chunk_ms),
        tikv_config: None,
    }
}

pub fn open(dir: &Path, kind: Kind, chunk_ms: u64, endpoints: &[&str]) -> R<Arc<dyn Base>> {
    let o = opts(dir, kind, chunk_ms);
    fn go<S, I>(o: DbOpts, s: Box<dyn Builder<S> + Send + Sync>, i: Box<dyn Builder<I> + Send + Sync>) -> R<Arc<dyn Base>>
    where
        S: Storage + Send + Sync + 'static,
        I: Indexer + Send + Sync + 'static,
    {
        let d = MonolithDb::<S, I>::new(o, s, i).map_err(|e| e.to_string())?;
        Ok(Arc::new(W(d)))
    }
    match (kind.tikv_storage, kind.tikv_indexer) {
        (false, false) => go(o, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())),
        (true, true) => go(o, tikv_storage(endpoints), tikv_indexer(endpoints)),
        (true, false) => go(o, tikv_storage(endpoints), Box::new(SledIndexerBuilder::new())),
        (false, true) => go(o, Box::new(SledStorageBuilder::new()), tikv_indexer(endpoints)),
    }
}

/// A storage of either kind, on its own.
pub fn storage_of(tikv: bool, dir: &Path, endpoints: &[&str], o: &ChunkOpts) -> R<Box<dyn AnyStorage>> {
    let p = dir.display().to_string();
    Ok(if tikv {
        Box::new(tikv_storage(endpoints).build(p, Some(o), None).map_err(|e| e.to_string())?)
    } else {
        Box::new(SledStorageBuilder::new().build(p, Some(o), None).map_err(|e| e.to_string())?)
    })
}

pub fn indexer_of(tikv: bool, dir: &Path, endpoints: &[&str], o: &ChunkOpts) -> R<Box<dyn AnyIndexer>> {
    let p = dir.display().to_string();
    Ok(if tikv {
        Box::new(tikv_indexer(endpoints).build(p, Some(o), None).map_err(|e| e.to_string())?)
    } else {
        Box::new(SledIndexerBuilder::new().build(p, Some(o), None).map_err(|e| e.to_string())?)
    })
}

/// Object-safe views of the two traits.
pub trait AnyStorage: Send + Sync {
    fn put(&self, id: u64, t: u64, v: f64) -> R<()>;
    fn get(&self, id: u64, a: u64, b: u64) -> R<Vec<TimePoint>>;
    /// as `get`, with "no such series" and "nothing in range" as an empty answer
    fn read(&self, id: u64, a: u64, b: u64) -> R<Vec<(u64, u64)>>;
}

impl<T: Storage + Send + Sync> AnyStorage for T {
    fn put(&self, id: u64, t: u64, v: f64) -> R<()> {
        self.write_time_point(id, t, v).map_err(|e| e.to_string())
    }
    fn get(&self, id: u64, a: u64, b: u64) -> R<Vec<TimePoint>> {
        self.read_time_series(id, a, b).map_err(|e| e.to_string())
    }
    fn read(&self, id: u64, a: u64, b: u64) -> R<Vec<(u64, u64)>> {
        use monolith::MonolithErr::*;
        match self.read_time_series(id, a, b) {
            Ok(v) => Ok(v.iter().map(|p| (p.timestamp, p.value.to_bits())).collect()),
            Err(NotFoundErr) | Err(OutOfRangeErr(_, _)) => Ok(vec![]),
            Err(e) => Err(e.to_string()),
        }
    }
}

pub trait AnyIndexer: Send + Sync {
    fn create(&self, l: Labels, id: u64) -> R<()>;
    fn exact(&self, l: Labels) -> R<Option<u64>>;
    fn with(&self, l: Labels) -> R<Vec<u64>>;
    fn meta(&self, l: Labels) -> R<Vec<(u64, Labels)>>;
}

impl<T: Indexer + Send + Sync> AnyIndexer for T {
    fn create(&self, l: Labels, id: u64) -> R<()> {
        self.create_index(l, id).map_err(|e| e.to_string())
    }
    fn exact(&self, l: Labels) -> R<Option<u64>> {
        self.get_series_id_by_labels(l).map_err(|e| e.to_string())
    }
    fn with(&self, l: Labels) -> R<Vec<u64>> {
        self.get_series_id_contains_labels(l).map_err(|e| e.to_string())
    }
    fn meta(&self, l: Labels) -> R<Vec<(u64, Labels)>> {
        self.get_series_metadata_contains_labels(l).map_err(|e| e.to_string())
    }
}

/// The windows of the chunk directories in `dir`, earliest first.
pub fn windows(dir: &Path) -> Vec<(u64, u64)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            if let Some(n) = e.file_name().to_str() {
                if e.path().is_dir() {
                    if let Ok(x) = u128::from_str_radix(n, 16) {
                        v.push(((x >> 64) as u64, x as u64));
                    }
                }
            }
        }
    }
    v.sort();
    v
}

/// Every file below `dir` with its contents, and every directory.
pub fn tree(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn go(d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                if p.is_dir() {
                    out.insert(p.clone(), None);
                    go(&p, out);
                } else {
                    out.insert(p.clone(), std::fs::read(&p).ok());
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, &mut out);
    out
}

#[derive(Clone, Debug)]
struct Val {
    bits: u64,
    at: u64,
    acked: bool,
}

/// What has been written, and what may or must be found of it.
#[derive(Clone, Debug, Default)]
pub struct Hist {
    cells: BTreeMap<Set, BTreeMap<u64, Vec<Val>>>,
}

impl Hist {
    /// A write is about to start.
    pub fn begin(&mut self, s: &Set, t: u64, v: f64, now: u64) {
        self.cells.entry(s.clone()).or_default().entry(t).or_default().push(Val {
            bits: v.to_bits(),
            at: now,
            acked: false,
        })
    }
    fn last(&mut self, s: &Set, t: u64, v: f64) -> Option<&mut Val> {
        self.cells
            .get_mut(s)
            .and_then(|m| m.get_mut(&t))
            .and_then(|c| c.iter_mut().rev().find(|x| x.bits == v.to_bits()))
    }
    /// The write was acknowledged.
    pub fn ack(&mut self, s: &Set, t: u64, v: f64, now: u64) {
        let x = self.last(s, t, v).expect("ack of an unknown write");
        x.acked = true;
        x.at = now;
    }
    /// The write was refused and must have no effect.
    pub fn refuse(&mut self, s: &Set, t: u64, v: f64) {
        let c = self.cells.get_mut(s).and_then(|m| m.get_mut(&t)).expect("refusal of an unknown write");
        let i = c.iter().rposition(|x| x.bits == v.to_bits() && !x.acked).expect("refusal of an unknown write");
        c.remove(i);
    }
    pub fn done(&mut self, s: &Set, t: u64, v: f64, now: u64) {
        self.begin(s, t, v, now);
        self.ack(s, t, v, now);
    }
    /// The process died: what was acknowledged less than `lag` ago may be lost.
    pub fn settle(&mut self, now: u64, lag: u64) {
        for m in self.cells.values_mut() {
            for c in m.values_mut() {
                let firm = c.iter().rposition(|v| v.acked && v.at + lag <= now);
                if let Some(i) = firm {
                    c.drain(..i);
                }
                for (k, v) in c.iter_mut().enumerate() {
                    v.acked = firm.is_some() && k == 0;
                }
            }
        }
    }
    pub fn must(&self, s: &Set, t: u64) -> bool {
        self.cells.get(s).and_then(|m| m.get(&t)).map_or(false, |c| c.iter().any(|v| v.acked))
    }
    pub fn check(&self, sel: &Set, a: u64, b: u64, ans: &Answer, base: u64) -> R<()> {
        for (s, pts) in ans {
            if !sel.is_subset(s) {
                return Err(format!("series {} does not match {}", show_set(s), show_set(sel)));
            }
            let mut last = None;
            for (t, v) in pts {
                if *t < a || *t > b {
                    return Err(format!(
                        "a point at {} is outside the range asked for, {}..{}",
                        rel(*t, base),
                        rel(a, base),
                        rel(b, base)
                    ));
                }
                if last == Some(*t) {
                    return Err(format!("two points at {} in {}", rel(*t, base), show_set(s)));
                }
                if last > Some(*t) {
                    return Err(format!("the points of {} are not in time order", show_set(s)));
                }
                last = Some(*t);
                let c = self.cells.get(s).and_then(|m| m.get(t));
                let ok = c.map_or(false, |c| {
                    let from = c.iter().rposition(|v| v.acked).unwrap_or(0);
                    c[from..].iter().any(|x| x.bits == *v)
                });
                if !ok {
                    return Err(format!(
                        "{} at {} in {} is not what was written there",
                        f64::from_bits(*v),
                        rel(*t, base),
                        show_set(s)
                    ));
                }
            }
        }
        for (s, m) in &self.cells {
            if !sel.is_subset(s) || a > b {
                continue;
            }
            for (t, c) in m.range(a..=b) {
                if c.iter().any(|v| v.acked) && !ans.get(s).map_or(false, |p| p.iter().any(|x| x.0 == *t)) {
                    return Err(format!(
                        "the acknowledged sample at {} of {} is missing",
                        rel(*t, base),
                        show_set(s)
                    ));
                }
            }
        }
        Ok(())
    }
    pub fn times(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.cells.values().flat_map(|m| m.keys().copied()).collect();
        v.sort();
        v.dedup();
        v
    }
}

pub const SERIES: [&[(&str, &str)]; 3] = [
    &[("a", "1"), ("b", "1")],
    &[("a", "1"), ("b", "2")],
    &[("a", "2")],
];

pub const SELECTORS: [&[(&str, &str)]; 8] = [
    &[("a", "1")],
    &[("a", "2")],
    &[("a", "1"), ("b", "1")],
    &[("b", "2"), ("a", "1")],
    &[("b", "2")],
    &[("a", "3")],
    &[("a", "1"), ("zz", "1")],
    &[("a", "2"), ("b", "1")],
];

/// Values that are easily damaged: each is distinct in its bits.
pub fn value(i: usize) -> f64 {
    match i % 8 {
        0 => 1.5 + i as f64,
        1 => -0.0,
        2 => f64::from_bits(0x7ff8_0000_0000_0123 + i as u64),
        3 => f64::NEG_INFINITY,
        4 => f64::from_bits(1 + i as u64),
        5 => 1e308,
        6 => 0.1 + i as f64,
        _ => 1.5 + i as f64 + 1e-13,
    }
}

/// Values among which equal ones follow one another, equal in their bits or only as numbers.
pub const PALETTE: [f64; 4] = [1.0, 0.0, -0.0, f64::NAN];

/// Asks everything, at every boundary, and compares.
pub fn check_all(db: &dyn Base, h: &Hist, base: u64, w: (u64, u64), when: &str) {
    let t = h.times();
    let mut ranges = vec![(0, u64::MAX), (w.0, w.1), (0, w.0.saturating_sub(1)), (w.1 + 1, u64::MAX), (w.1, w.0.min(w.1 - 1))];
    for (i, x) in t.iter().enumerate() {
        ranges.push((*x, *x));
        if let Some(y) = t.get(i + 1) {
            ranges.push((x + 1, y - 1));
            ranges.push((*x, y - 1));
            ranges.push((x + 1, *y));
        }
    }
    for sel in SELECTORS {
        for (n, r) in ranges.iter().enumerate() {
            // the full range for every selector, every range for the widest ones
            if n > 0 && sel.len() > 1 && n % 3 != 0 {
                continue;
            }
            ask(db, h, sel, *r, base, when);
        }
    }
}

pub fn ask(db: &dyn Base, h: &Hist, sel: &[(&str, &str)], r: (u64, u64), base: u64, when: &str) -> Answer {
    let got = match db.query(labels(sel), r.0, r.1) {
        Ok(g) => g,
        Err(e) => panic!("{}: the query for {} in {}..{} failed: {}", when, show_set(&set(sel)), rel(r.0, base), rel(r.1, base), e),
    };
    let ans = match normal(&got) {
        Ok(a) => a,
        Err(e) => panic!("{}: {}", when, e),
    };
    if let Err(e) = h.check(&set(sel), r.0, r.1, &ans, base) {
        panic!(
            "{}: query for {} in {}..{} answers {}: {}",
            when,
            show_set(&set(sel)),
            rel(r.0, base),
            rel(r.1, base),
            show_answer(&ans, base),
            e
        )
    }
    ans
}

pub fn full(db: &dyn Base, h: &Hist, base: u64, when: &str) -> Answer {
    let mut all = ask(db, h, &[("a", "1")], (0, u64::MAX), base, when);
    all.extend(ask(db, h, &[("a", "2")], (0, u64::MAX), base, when));
    all
}

pub fn note(s: impl FnOnce() -> String) {
    mc::note(s)
}
