//! sled under model checking. Inside a controlled execution a `Db` is an environment model of
//! sled 0.22.1 (see `Store`); outside one, and after `use_real(true)`, everything goes to the real
//! sled 0.22.1, against which the model is replayed (harness property checks, "conformance").
//!
//! The model: an atomic, ordered map per tree; a log of all changes per database directory; `flush`,
//! the drop of the last handle and the background flusher (entries older than twice
//! `flush_every_ms`) make a prefix of the log durable; when the process ends otherwise, any prefix
//! of the log that is at least that long survives. Every call is a scheduling, fault and crash point.
#![allow(clippy::all)]
pub use sled_real::{Error, IVec, Result};

pub type MergeOperator = fn(&[u8], Option<&[u8]>, &[u8]) -> Option<Vec<u8>>;
use std::any::Any;
use std::collections::BTreeMap;
use std::ops::{Bound, Deref, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vstd::mc;

type Key = Vec<u8>;

#[derive(Clone, Debug)]
struct Op {
    tree: Vec<u8>,
    key: Key,
    val: Option<Vec<u8>>,
    at: u64,
}

struct Store {
    path: PathBuf,
    log: Vec<Op>,
    durable: usize,
    state: BTreeMap<Vec<u8>, BTreeMap<Key, Vec<u8>>>,
    /// handles alive: the directory is locked
    open: bool,
    flush_every: Option<u64>,
    recovered: bool,
    ids: u64,
    fresh: bool,
}

#[derive(Default)]
struct World {
    stores: Vec<Arc<Mutex<Store>>>,
    real: bool,
    /// handles made before this many crashes are dead
    epoch: u64,
    /// virtual ns that a change is certainly durable after
    calls: u64,
}

fn world<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let c = mc::cur()?;
    let mut o = c.exec().objects.lock().unwrap_or_else(|e| e.into_inner());
    let w = o
        .entry("sled")
        .or_insert_with(|| Box::new(World::default()) as Box<dyn Any + Send>)
        .downcast_mut::<World>()
        .unwrap();
    Some(f(w))
}

fn simulated() -> bool {
    world(|w| !w.real).unwrap_or(false)
}

/// From now on this execution uses the real sled.
pub fn use_real(on: bool) {
    world(|w| w.real = on);
}

/// Calls made to the model so far in this execution.
pub fn calls() -> u64 {
    world(|w| w.calls).unwrap_or(0)
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Store {
    fn age(&mut self, now: u64) {
        if let Some(ms) = self.flush_every {
            while self.durable < self.log.len()
                && self.log[self.durable].at + 2 * ms * 1_000_000 <= now
            {
                self.durable += 1;
            }
        }
    }
    fn apply(state: &mut BTreeMap<Vec<u8>, BTreeMap<Key, Vec<u8>>>, op: &Op) {
        let t = state.entry(op.tree.clone()).or_default();
        match &op.val {
            Some(v) => {
                t.insert(op.key.clone(), v.clone());
            }
            None => {
                t.remove(&op.key);
            }
        }
    }
}

/// The process has ended: each database keeps a prefix of its log that includes what was durable,
/// which prefix being a choice; its lock is gone and old handles are dead.
pub fn after_crash() {
    let now = mc::cur().unwrap().now_ns();
    let stores = world(|w| {
        w.epoch += 1;
        w.stores.clone()
    })
    .unwrap();
    for s in stores {
        let (lo, hi) = {
            let mut s = lock(&s);
            s.age(now);
            (s.durable, s.log.len())
        };
        // the most that can survive comes first: it is the default
        let keep = hi - mc::choose(hi - lo + 1);
        let mut s = lock(&s);
        if keep < hi {
            let p = s.path.clone();
            mc::note(|| format!("sled at {}: {} of {} changes survive", p.display(), keep, hi));
        }
        s.log.truncate(keep);
        s.durable = keep;
        s.open = false;
        let mut state = BTreeMap::new();
        for op in &s.log {
            Store::apply(&mut state, op);
        }
        s.state = state;
    }
}

/// The process has ended in good order: everything is durable, locks are gone, handles are dead.
pub fn after_exit() {
    let stores = world(|w| {
        w.epoch += 1;
        w.stores.clone()
    })
    .unwrap();
    for s in stores {
        let mut s = lock(&s);
        s.durable = s.log.len();
        s.open = false;
    }
}

/// The contents of every tree of the database at `path` (model only), for reports.
pub fn dump(path: &Path) -> Vec<(Vec<u8>, Vec<u8>)> {
    let stores = world(|w| w.stores.clone()).unwrap_or_default();
    for s in stores {
        let s = lock(&s);
        if s.path == path {
            return s
                .state
                .values()
                .flat_map(|t| t.iter().map(|(k, v)| (k.clone(), v.clone())))
                .collect();
        }
    }
    vec![]
}

fn iv(v: Vec<u8>) -> IVec {
    IVec::from(v)
}

fn io_err(s: &str) -> Error {
    Error::Io(std::io::Error::new(std::io::ErrorKind::Other, s.to_string()))
}

// ---- configuration ----

#[derive(Clone)]
pub struct ConfigBuilder {
    real: sled_real::ConfigBuilder,
    path: PathBuf,
    flush_every: Option<u64>,
}

impl Default for ConfigBuilder {
    fn default() -> Self {
        ConfigBuilder {
            real: sled_real::ConfigBuilder::default(),
            path: PathBuf::from("default.sled"),
            flush_every: Some(500),
        }
    }
}

macro_rules! pass {
    ($($n:ident: $t:ty),*) => {
        $(pub fn $n(mut self, v: $t) -> Self {
            self.real = self.real.$n(v);
            self
        })*
    };
}

impl ConfigBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self {
        self.path = p.as_ref().to_path_buf();
        self.real = self.real.path(p);
        self
    }
    pub fn flush_every_ms(mut self, v: Option<u64>) -> Self {
        self.flush_every = v;
        self.real = self.real.flush_every_ms(v);
        self
    }
    pass!(io_bufs: usize, io_buf_size: usize, blink_node_split_size: usize,
        page_consolidation_threshold: usize, temporary: bool, read_only: bool, cache_bits: usize,
        cache_capacity: usize, use_compression: bool, compression_factor: i32,
        snapshot_after_ops: usize, segment_cleanup_threshold: f64, segment_cleanup_skew: usize,
        snapshot_path: Option<PathBuf>, print_profile_on_drop: bool, idgen_persist_interval: usize,
        async_io: bool, async_io_threads: usize, merge_operator: MergeOperator);

    /// Opens and locks the directory; panics when it cannot, as the real one does.
    pub fn build(self) -> Config {
        if !simulated() {
            if let Err(e) = contained(&self.path) {
                panic!("{}", e)
            }
            return Config(Cfg::Real(self.real.build()));
        }
        match open(&self.path, self.flush_every) {
            Ok(h) => Config(Cfg::Sim(h)),
            Err(e) => panic!("should be able to open configured file at {:?}: {}", self.path, e),
        }
    }
}

fn contained(p: &Path) -> std::result::Result<(), String> {
    let abs = if p.is_absolute() {
        p.to_path_buf()
    } else {
        std::env::current_dir().unwrap_or_default().join(p)
    };
    if abs.starts_with(mc::scratch()) && !abs.components().any(|c| c == std::path::Component::ParentDir) {
        Ok(())
    } else {
        vstd::fs::ESCAPES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Err(format!("refused: a database outside the scratch directory: {}", p.display()))
    }
}

fn open(path: &Path, flush_every: Option<u64>) -> std::result::Result<Arc<Handle>, String> {
    contained(path)?;
    let c = mc::cur().unwrap();
    if !mc::dying() {
        c.point();
        mc::crash_point("sled open", 1);
    }
    let mark = path.join("db");
    let known = std::fs::read_to_string(&mark)
        .ok()
        .and_then(|s| s.trim().parse::<usize>().ok());
    let (store, epoch) = world(|w| {
        w.calls += 1;
        let id = match known.filter(|&i| i < w.stores.len()) {
            Some(i) => i,
            None => {
                if !mc::dying() {
                    std::fs::create_dir_all(path.join("blobs")).map_err(|e| e.to_string())?;
                    std::fs::write(&mark, format!("{}", w.stores.len()))
                        .map_err(|e| e.to_string())?;
                }
                w.stores.push(Arc::new(Mutex::new(Store {
                    path: path.to_path_buf(),
                    log: vec![],
                    durable: 0,
                    state: BTreeMap::new(),
                    open: false,
                    flush_every,
                    recovered: false,
                    ids: 0,
                    fresh: true,
                })));
                w.stores.len() - 1
            }
        };
        Ok::<_, String>((w.stores[id].clone(), w.epoch))
    })
    .unwrap()?;
    {
        let mut s = lock(&store);
        if s.open {
            return Err("could not acquire exclusive file lock".into());
        }
        s.open = true;
        s.flush_every = flush_every;
        s.recovered = !s.fresh;
        s.fresh = false;
        s.path = path.to_path_buf();
    }
    if !mc::dying() {
        mc::crash_point("sled opened", 1);
    }
    Ok(Arc::new(Handle { store, epoch }))
}

/// Holds the lock of a database directory.
struct Handle {
    store: Arc<Mutex<Store>>,
    epoch: u64,
}

impl Drop for Handle {
    fn drop(&mut self) {
        let live = world(|w| w.epoch == self.epoch).unwrap_or(false);
        if live && !mc::dying() {
            let mut s = lock(&self.store);
            s.durable = s.log.len();
            s.open = false;
        }
    }
}

enum Cfg {
    Real(sled_real::Config),
    Sim(Arc<Handle>),
}

pub struct Config(Cfg);

impl Clone for Config {
    fn clone(&self) -> Self {
        Config(match &self.0 {
            Cfg::Real(c) => Cfg::Real(c.clone()),
            Cfg::Sim(h) => Cfg::Sim(h.clone()),
        })
    }
}

// ---- trees ----

enum Imp {
    Db(sled_real::Db),
    Real(Arc<sled_real::Tree>),
    Sim { h: Arc<Handle>, name: Vec<u8> },
}

pub struct Tree(Imp);

impl Clone for Tree {
    fn clone(&self) -> Self {
        Tree(match &self.0 {
            Imp::Db(d) => Imp::Db(d.clone()),
            Imp::Real(t) => Imp::Real(t.clone()),
            Imp::Sim { h, name } => Imp::Sim {
                h: h.clone(),
                name: name.clone(),
            },
        })
    }
}

const DEFAULT_TREE: &[u8] = b"__sled__default";

/// Before every call: schedule, crash, fail.
fn enter(h: &Handle, what: &'static str) -> Result<()> {
    let c = match mc::cur() {
        Some(c) => c,
        None => return Err(io_err("a model database used outside its execution")),
    };
    if mc::dying() {
        return Ok(());
    }
    c.point();
    if mc::dying() {
        return Ok(());
    }
    let ok = world(|w| {
        w.calls += 1;
        w.epoch == h.epoch
    })
    .unwrap();
    if !ok {
        return Err(io_err("a database handle of an earlier process"));
    }
    mc::crash_point(what, 1);
    if mc::dying() {
        return Ok(());
    }
    if mc::fault(what) {
        return Err(io_err("injected I/O error"));
    }
    Ok(())
}

fn enter_read(h: &Handle, what: &'static str) -> Result<()> {
    let c = match mc::cur() {
        Some(c) => c,
        None => return Err(io_err("a model database used outside its execution")),
    };
    if mc::dying() {
        return Ok(());
    }
    c.point();
    if mc::dying() {
        return Ok(());
    }
    let ok = world(|w| {
        w.calls += 1;
        w.epoch == h.epoch
    })
    .unwrap();
    if !ok {
        return Err(io_err("a database handle of an earlier process"));
    }
    if mc::fault(what) {
        return Err(io_err("injected I/O error"));
    }
    Ok(())
}

impl Tree {
    fn real(&self) -> &sled_real::Tree {
        match &self.0 {
            Imp::Db(d) => d,
            Imp::Real(t) => t,
            Imp::Sim { .. } => unreachable!(),
        }
    }

    fn sim(&self) -> Option<(&Arc<Handle>, &[u8])> {
        match &self.0 {
            Imp::Sim { h, name } => Some((h, name)),
            _ => None,
        }
    }

    fn put(h: &Handle, name: &[u8], key: &[u8], val: Option<Vec<u8>>) -> Option<IVec> {
        if mc::dying() {
            return None;
        }
        let now = mc::cur().map_or(0, |c| c.now_ns());
        let mut s = lock(&h.store);
        s.age(now);
        let op = Op {
            tree: name.to_vec(),
            key: key.to_vec(),
            val,
            at: now,
        };
        let old = s.state.get(name).and_then(|t| t.get(key)).cloned();
        Store::apply(&mut s.state, &op);
        s.log.push(op);
        old.map(IVec::from)
    }

    fn look(h: &Handle, name: &[u8], key: &[u8]) -> Option<Vec<u8>> {
        let s = lock(&h.store);
        s.state.get(name).and_then(|t| t.get(key)).cloned()
    }

    fn all(h: &Handle, name: &[u8]) -> Vec<(Vec<u8>, IVec)> {
        let s = lock(&h.store);
        s.state
            .get(name)
            .map(|t| t.iter().map(|(k, v)| (k.clone(), IVec::from(v.clone()))).collect())
            .unwrap_or_default()
    }

    pub fn set<K, V>(&self, key: K, value: V) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        IVec: From<V>,
    {
        match self.sim() {
            None => self.real().set(key, value),
            Some((h, n)) => {
                enter(h, "sled set")?;
                let v = IVec::from(value);
                Ok(Self::put(h, n, key.as_ref(), Some(v.to_vec())))
            }
        }
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        match self.sim() {
            None => self.real().get(key),
            Some((h, n)) => {
                enter_read(h, "sled get")?;
                Ok(Self::look(h, n, key.as_ref()).map(IVec::from))
            }
        }
    }

    pub fn del<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        match self.sim() {
            None => self.real().del(key),
            Some((h, n)) => {
                enter(h, "sled del")?;
                Ok(Self::put(h, n, key.as_ref(), None))
            }
        }
    }

    pub fn cas<K, OV, NV>(
        &self,
        key: K,
        old: Option<OV>,
        new: Option<NV>,
    ) -> Result<std::result::Result<(), Option<IVec>>>
    where
        K: AsRef<[u8]>,
        OV: AsRef<[u8]>,
        IVec: From<NV>,
    {
        match self.sim() {
            None => self.real().cas(key, old, new),
            Some((h, n)) => {
                enter(h, "sled cas")?;
                let cur = Self::look(h, n, key.as_ref());
                if cur.as_deref() != old.as_ref().map(|o| o.as_ref()) {
                    return Ok(Err(cur.map(iv)));
                }
                Self::put(h, n, key.as_ref(), new.map(|v| IVec::from(v).to_vec()));
                Ok(Ok(()))
            }
        }
    }

    pub fn update_and_fetch<K, V, F>(&self, key: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: Fn(Option<&[u8]>) -> Option<V>,
        IVec: From<V>,
    {
        match self.sim() {
            None => self.real().update_and_fetch(key, f),
            Some((h, n)) => {
                enter(h, "sled update")?;
                let cur = Self::look(h, n, key.as_ref());
                let new = f(cur.as_deref()).map(IVec::from);
                Self::put(h, n, key.as_ref(), new.as_ref().map(|v| v.to_vec()));
                Ok(new)
            }
        }
    }

    pub fn fetch_and_update<K, V, F>(&self, key: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: Fn(Option<&[u8]>) -> Option<V>,
        IVec: From<V>,
    {
        match self.sim() {
            None => self.real().fetch_and_update(key, f),
            Some((h, n)) => {
                enter(h, "sled update")?;
                let cur = Self::look(h, n, key.as_ref());
                let new = f(cur.as_deref()).map(IVec::from);
                Self::put(h, n, key.as_ref(), new.map(|v| v.to_vec()));
                Ok(cur.map(iv))
            }
        }
    }

    pub fn contains_key<K: AsRef<[u8]>>(&self, key: K) -> Result<bool> {
        match self.sim() {
            None => self.real().contains_key(key),
            Some(_) => Ok(self.get(key)?.is_some()),
        }
    }

    pub fn flush(&self) -> Result<usize> {
        match self.sim() {
            None => self.real().flush(),
            Some((h, _)) => {
                enter(h, "sled flush")?;
                if mc::dying() {
                    return Ok(0);
                }
                {
                    let mut s = lock(&h.store);
                    s.durable = s.log.len();
                }
                Ok(0)
            }
        }
    }

    fn list(&self, lo: Bound<Vec<u8>>, hi: Bound<Vec<u8>>) -> Result<Vec<(Vec<u8>, IVec)>> {
        let (h, n) = self.sim().unwrap();
        enter_read(h, "sled scan")?;
        Ok(Self::all(h, n)
            .into_iter()
            .filter(|(k, _)| match &lo {
                Bound::Included(b) => k >= b,
                Bound::Excluded(b) => k > b,
                Bound::Unbounded => true,
            })
            .filter(|(k, _)| match &hi {
                Bound::Included(b) => k <= b,
                Bound::Excluded(b) => k < b,
                Bound::Unbounded => true,
            })
            .collect())
    }

    pub fn iter(&self) -> Iter<'_> {
        self.range::<Vec<u8>, _>(..)
    }

    pub fn scan<K: AsRef<[u8]>>(&self, key: K) -> Iter<'_> {
        self.range(key..)
    }

    pub fn range<K, R>(&self, range: R) -> Iter<'_>
    where
        K: AsRef<[u8]>,
        R: RangeBounds<K>,
    {
        if self.sim().is_none() {
            return Iter(Box::new(self.real().range(range)));
        }
        let own = |b: Bound<&K>| match b {
            Bound::Included(k) => Bound::Included(k.as_ref().to_vec()),
            Bound::Excluded(k) => Bound::Excluded(k.as_ref().to_vec()),
            Bound::Unbounded => Bound::Unbounded,
        };
        let l: Vec<Result<(Vec<u8>, IVec)>> = match self.list(own(range.start_bound()), own(range.end_bound())) {
            Ok(v) => v.into_iter().map(Ok).collect(),
            Err(e) => vec![Err(e)],
        };
        Iter(Box::new(l.into_iter()))
    }

    pub fn keys<'a, K: AsRef<[u8]>>(
        &'a self,
        key: K,
    ) -> impl 'a + DoubleEndedIterator<Item = Result<Vec<u8>>> {
        self.scan(key).keys()
    }

    pub fn values<'a, K: AsRef<[u8]>>(
        &'a self,
        key: K,
    ) -> impl 'a + DoubleEndedIterator<Item = Result<IVec>> {
        self.scan(key).values()
    }

    pub fn get_lt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(Vec<u8>, IVec)>> {
        if self.sim().is_none() {
            return self.real().get_lt(key);
        }
        Ok(self
            .list(Bound::Unbounded, Bound::Excluded(key.as_ref().to_vec()))?
            .pop())
    }

    pub fn get_gt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(Vec<u8>, IVec)>> {
        if self.sim().is_none() {
            return self.real().get_gt(key);
        }
        Ok(self
            .list(Bound::Excluded(key.as_ref().to_vec()), Bound::Unbounded)?
            .into_iter()
            .next())
    }

    pub fn len(&self) -> usize {
        self.iter().count()
    }
    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
    pub fn clear(&self) -> Result<()> {
        let keys: Vec<_> = self.keys(b"").collect();
        for k in keys {
            self.del(k?)?;
        }
        Ok(())
    }
    pub fn name(&self) -> Vec<u8> {
        match self.sim() {
            None => self.real().name(),
            Some((_, n)) => n.to_vec(),
        }
    }
}

pub struct Iter<'a>(Box<dyn DoubleEndedIterator<Item = Result<(Vec<u8>, IVec)>> + 'a>);

impl<'a> Iter<'a> {
    pub fn keys(self) -> impl 'a + DoubleEndedIterator<Item = Result<Vec<u8>>> {
        self.map(|r| r.map(|(k, _)| k))
    }
    pub fn values(self) -> impl 'a + DoubleEndedIterator<Item = Result<IVec>> {
        self.map(|r| r.map(|(_, v)| v))
    }
}
impl Iterator for Iter<'_> {
    type Item = Result<(Vec<u8>, IVec)>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
impl DoubleEndedIterator for Iter<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back()
    }
}
impl<'a> IntoIterator for &'a Tree {
    type Item = Result<(Vec<u8>, IVec)>;
    type IntoIter = Iter<'a>;
    fn into_iter(self) -> Iter<'a> {
        self.iter()
    }
}

#[derive(Clone)]
pub struct Db {
    default: Tree,
}

unsafe impl Send for Db {}
unsafe impl Sync for Db {}

impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.default
    }
}

impl Db {
    pub fn start_default<P: AsRef<Path>>(path: P) -> Result<Db> {
        Self::start(ConfigBuilder::new().path(path).build())
    }

    pub fn start(config: Config) -> Result<Db> {
        match config.0 {
            Cfg::Real(c) => Ok(Db {
                default: Tree(Imp::Db(sled_real::Db::start(c)?)),
            }),
            Cfg::Sim(h) => {
                if !mc::dying() && mc::fault("sled start") {
                    return Err(io_err("injected I/O error"));
                }
                Ok(Db {
                    default: Tree(Imp::Sim {
                        h,
                        name: DEFAULT_TREE.to_vec(),
                    }),
                })
            }
        }
    }

    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Arc<Tree>> {
        match &self.default.0 {
            Imp::Db(d) => Ok(Arc::new(Tree(Imp::Real(d.open_tree(name)?)))),
            Imp::Sim { h, .. } => {
                enter(h, "sled open_tree")?;
                lock(&h.store).state.entry(name.as_ref().to_vec()).or_default();
                Ok(Arc::new(Tree(Imp::Sim {
                    h: h.clone(),
                    name: name.as_ref().to_vec(),
                })))
            }
            Imp::Real(_) => unreachable!(),
        }
    }

    pub fn drop_tree(&self, name: &[u8]) -> Result<bool> {
        match &self.default.0 {
            Imp::Db(d) => d.drop_tree(name),
            Imp::Sim { h, .. } => {
                enter(h, "sled drop_tree")?;
                for (k, _) in Tree::all(h, name) {
                    Tree::put(h, name, &k, None);
                }
                Ok(lock(&h.store).state.remove(name).is_some())
            }
            Imp::Real(_) => unreachable!(),
        }
    }

    pub fn tree_names(&self) -> Vec<Vec<u8>> {
        match &self.default.0 {
            Imp::Db(d) => d.tree_names(),
            Imp::Sim { h, .. } => {
                let s = lock(&h.store);
                let mut v: Vec<Vec<u8>> = s.state.keys().cloned().collect();
                if !v.iter().any(|n| n == DEFAULT_TREE) {
                    v.push(DEFAULT_TREE.to_vec());
                }
                v
            }
            Imp::Real(_) => unreachable!(),
        }
    }

    pub fn was_recovered(&self) -> bool {
        match &self.default.0 {
            Imp::Db(d) => d.was_recovered(),
            Imp::Sim { h, .. } => lock(&h.store).recovered,
            Imp::Real(_) => unreachable!(),
        }
    }

    pub fn generate_id(&self) -> Result<u64> {
        match &self.default.0 {
            Imp::Db(d) => d.generate_id(),
            Imp::Sim { h, .. } => {
                enter(h, "sled generate_id")?;
                let mut s = lock(&h.store);
                s.ids += 1;
                Ok(s.ids - 1)
            }
            Imp::Real(_) => unreachable!(),
        }
    }
}
