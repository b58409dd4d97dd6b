//! Checks of the HTTP server: what is written is read, malformed requests, matchers.
use crate::core::{fingerprint, seqs, Report};
use crate::oracle::*;
use crate::wire::{self, *};
use monolith::chunk::ChunkOpts;
use monolith::indexer::*;
use monolith::label::Labels;
use monolith::option::{DbOpts, ServerOpts};
use monolith::server::MonolithServer;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::time_series::TimeSeriesId;
use monolith::{Builder, HasTypeName, MonolithDb, MonolithErr, TiKvRawBackendSingleton};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::net::TcpStream;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vstd::mc;

type M<T> = monolith::Result<T>;

// ---- what reaches the database's backends ----

#[derive(Default)]
struct Tally {
    /// series id, time, bits, in the order of the calls, of those that succeeded
    puts: Mutex<Vec<(u64, u64, u64)>>,
    /// labels of each series id
    series: Mutex<BTreeMap<u64, Set>>,
    created: AtomicU64,
    calls: AtomicU64,
    /// the number of the call, counted from 1, that fails; 0: none
    fail: AtomicU64,
    failed: AtomicU64,
}

impl Tally {
    fn call(&self) -> M<()> {
        let n = self.calls.fetch_add(1, SeqCst) + 1;
        if n == self.fail.load(SeqCst) {
            self.failed.fetch_add(1, SeqCst);
            return Err(MonolithErr::InternalErr("injected failure".into()));
        }
        Ok(())
    }
    fn reset(&self, fail: u64) {
        self.puts.lock().unwrap().clear();
        self.created.store(0, SeqCst);
        self.calls.store(0, SeqCst);
        self.failed.store(0, SeqCst);
        self.fail.store(fail, SeqCst);
    }
    fn writes(&self) -> u64 {
        self.puts.lock().unwrap().len() as u64 + self.created.load(SeqCst)
    }
    /// What the writes since the last reset come to.
    fn effect(&self) -> BTreeMap<Set, BTreeMap<u64, u64>> {
        let s = self.series.lock().unwrap();
        let mut o: BTreeMap<Set, BTreeMap<u64, u64>> = BTreeMap::new();
        for (id, t, v) in self.puts.lock().unwrap().iter() {
            let k = s.get(id).cloned().unwrap_or_default();
            o.entry(k).or_default().insert(*t, *v);
        }
        o
    }
}

struct Watched<T>(T, Arc<Tally>);

impl<T: HasTypeName> HasTypeName for Watched<T> {
    fn get_type_name() -> &'static str {
        T::get_type_name()
    }
}

impl<T: Storage> Storage for Watched<T> {
    fn write_time_point(&self, id: TimeSeriesId, t: u64, v: f64) -> M<()> {
        self.1.call()?;
        self.0.write_time_point(id, t, v)?;
        self.1.puts.lock().unwrap().push((id, t, v.to_bits()));
        Ok(())
    }
    fn read_time_series(&self, id: TimeSeriesId, a: u64, b: u64) -> M<Vec<TimePoint>> {
        self.1.call()?;
        self.0.read_time_series(id, a, b)
    }
}

impl<T: Indexer> Indexer for Watched<T> {
    fn get_series_metadata_contains_labels(&self, l: Labels) -> M<Vec<(TimeSeriesId, Labels)>> {
        self.1.call()?;
        self.0.get_series_metadata_contains_labels(l)
    }
    fn get_series_id_contains_labels(&self, l: Labels) -> M<Vec<TimeSeriesId>> {
        self.1.call()?;
        self.0.get_series_id_contains_labels(l)
    }
    fn get_series_id_by_labels(&self, l: Labels) -> M<Option<TimeSeriesId>> {
        self.1.call()?;
        self.0.get_series_id_by_labels(l)
    }
    fn create_index(&self, l: Labels, id: TimeSeriesId) -> M<()> {
        self.1.call()?;
        let s = set_of(&l);
        self.0.create_index(l, id)?;
        self.1.series.lock().unwrap().insert(id, s);
        self.1.created.fetch_add(1, SeqCst);
        Ok(())
    }
}

struct WatchedBuilder<B>(B, Arc<Tally>);

impl<T, B: Builder<T>> Builder<Watched<T>> for WatchedBuilder<B> {
    fn build(&self, p: String, c: Option<&ChunkOpts>, d: Option<&DbOpts>) -> M<Watched<T>> {
        Ok(Watched(self.0.build(p, c, d)?, self.1.clone()))
    }
    fn write_to_chunk(&self, d: &Path) -> M<()> {
        self.0.write_to_chunk(d)
    }
    fn read_from_chunk(&self, d: &Path, c: Option<&ChunkOpts>) -> M<Option<Watched<T>>> {
        Ok(self.0.read_from_chunk(d, c)?.map(|t| Watched(t, self.1.clone())))
    }
    fn write_config(&self, d: &Path) -> M<()> {
        self.0.write_config(d)
    }
    fn read_config(&self, d: &Path) -> M<()> {
        self.0.read_config(d)
    }
}

// ---- a server per worker thread ----

struct Srv {
    port: u16,
    /// the open window
    w: (u64, u64),
    tally: Arc<Tally>,
    conn: Option<TcpStream>,
    age: u64,
    ready: bool,
    odd: bool,
}

static STARTING: Mutex<()> = Mutex::new(());
static NUMBER: AtomicU64 = AtomicU64::new(0);

pub const WRITE: &str = "/api/v1/write";
pub const READ: &str = "/api/v1/read";

pub fn free_port() -> u16 {
    std::net::TcpListener::bind(("127.0.0.1", 0)).and_then(|l| l.local_addr()).expect("no free port").port()
}

impl Srv {
    fn start() -> Srv {
        let _g = STARTING.lock().unwrap_or_else(|e| e.into_inner());
        let dir = mc::scratch().join(format!("srv{}", NUMBER.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        let tally = Arc::new(Tally::default());
        let o = DbOpts { storage: "sled".into(), indexer: "sled".into(), base_dir: dir.clone(), chunk_size: Duration::from_secs(36_000), tikv_config: None };
        let db = MonolithDb::<Watched<SledStorage>, Watched<SledIndexer>>::new(
            o,
            Box::new(WatchedBuilder(SledStorageBuilder::new(), tally.clone())),
            Box::new(WatchedBuilder(SledIndexerBuilder::new(), tally.clone())),
        )
        .expect("the database does not open");
        let w = *crate::db::windows(&dir).first().expect("no chunk");
        for _ in 0..20 {
            let port = free_port();
            let db = db.clone();
            let t = std::thread::spawn(move || {
                let s = MonolithServer::new(ServerOpts { port: port as i32, write_path: WRITE, read_path: READ, worker_num: 2 }, db);
                s.serve()
            });
            for _ in 0..500 {
                if t.is_finished() {
                    break;
                }
                if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                    return Srv { port, w, tally, conn: None, age: 0, ready: false, odd: false };
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        panic!("the server does not start");
    }

    /// Sends raw bytes on the standing connection, and reads the answer.
    fn raw(&mut self, b: &[u8], head: bool) -> Result<Resp, String> {
        if self.conn.is_none() {
            self.conn = Some(wire::connect(self.port)?);
        }
        let c = self.conn.as_mut().unwrap();
        send(c, b, false)?;
        response(c, head)
    }

    fn post(&mut self, path: &str, payload: &[u8]) -> Result<Resp, String> {
        self.raw(&frame("POST", path, &[], &snap(payload)), false)
    }

    fn write(&mut self, s: &[Series]) -> Result<u32, String> {
        Ok(self.post(WRITE, &write_request(s))?.status)
    }

    fn read(&mut self, q: &[Query]) -> Result<Result<Vec<Answer>, u32>, String> {
        let r = self.post(READ, &read_request(q))?;
        if r.status != 200 {
            return Ok(Err(r.status));
        }
        Ok(Ok(de_response(&r.body)?))
    }

    /// Whether it still answers, on a new connection.
    fn alive(&mut self) -> Result<(), String> {
        let mut c = wire::connect(self.port).map_err(|e| format!("afterwards {}", e))?;
        let q = [Query { start: 1, end: 2, matchers: vec![(0, "nobody".into(), "has this".into())] }];
        send(&mut c, &frame("POST", READ, &["Connection: close"], &snap(&read_request(&q))), false)?;
        let r = response(&mut c, false).map_err(|e| format!("afterwards the server does not answer a read ({})", e))?;
        match r.status {
            200 => Ok(()),
            s => Err(format!("afterwards a read is answered with {}", s)),
        }
    }
}

thread_local! {
    static SRV: RefCell<Option<Srv>> = RefCell::new(None);
}

/// Runs a case on this thread's server. A server that failed a case is not used again.
fn with<T>(max_age: u64, f: impl FnOnce(&mut Srv) -> Result<T, String>) -> Result<T, String> {
    let mut s = SRV.with(|s| s.borrow_mut().take()).filter(|s| s.age < max_age).unwrap_or_else(Srv::start);
    s.age += 1;
    s.tally.reset(0);
    let r = f(&mut s);
    if r.is_ok() {
        SRV.with(|x| *x.borrow_mut() = Some(s));
    }
    r
}

static CASE: AtomicU64 = AtomicU64::new(0);
/// A label value nothing else has.
fn unique() -> String {
    format!("c{}", CASE.fetch_add(1, SeqCst))
}

fn want(got: u32, what: &str) -> Result<(), String> {
    if got == 200 {
        Ok(())
    } else {
        Err(format!("{} is answered with {}", what, got))
    }
}

/// Takes the samples a server acknowledged into the account: those in its window count.
fn account(spec: &mut Spec, w: (u64, u64), s: &[Series]) {
    for x in s {
        let k: Set = x.labels.iter().cloned().collect();
        for (t, v) in &x.samples {
            if *t >= 0 && *t as u64 >= w.0 && *t as u64 <= w.1 {
                spec.put(&k, *t as u64, f64::from_bits(*v));
            }
        }
    }
}

/// What a query has to answer, if its matchers are all equalities.
fn answer(spec: &Spec, q: &Query) -> Answer {
    let sel: Set = q.matchers.iter().map(|m| (m.1.clone(), m.2.clone())).collect();
    if q.end < 0 || q.start > q.end {
        return Answer::new();
    }
    spec.query(&sel, q.start.max(0) as u64, q.end as u64)
}

fn show_answer(a: &Answer, w: (u64, u64)) -> String {
    let v: Vec<String> = a
        .iter()
        .map(|(s, p)| {
            let p: Vec<String> = p.iter().map(|(t, v)| format!("w{:+}:{:x}", t.wrapping_sub(w.0) as i64, v)).collect();
            format!("{:?} => [{}]", s, p.join(" "))
        })
        .collect();
    format!("{{{}}}", v.join(", "))
}

fn ask_all(s: &mut Srv, spec: &Spec, qs: &[Query], what: &str) -> Result<u64, String> {
    let got = s.read(qs)?.map_err(|e| format!("{}: the read is answered with {}", what, e))?;
    if got.len() != qs.len() {
        return Err(format!("{}: {} results for {} queries", what, got.len(), qs.len()));
    }
    let mut print = vec![];
    for (q, g) in qs.iter().zip(&got) {
        let e = answer(spec, q);
        if &e != g {
            let m: Vec<String> = q.matchers.iter().map(|m| format!("{}={:?}", m.1, m.2)).collect();
            return Err(format!(
                "{}: {{{}}} from w{:+} to w{:+} is answered with {}, not {}",
                what,
                m.join(","),
                (q.start as i128 - s.w.0 as i128),
                (q.end as i128 - s.w.0 as i128),
                show_answer(g, s.w),
                show_answer(&e, s.w)
            ));
        }
        print.push(show_answer(g, s.w).replace(|c: char| c.is_ascii_digit(), "0"));
        print.push(format!("{}", g.values().map(|v| v.len()).sum::<usize>()));
    }
    Ok(fingerprint(&print))
}

fn eq(l: &[(&str, &str)]) -> Vec<(u64, String, String)> {
    l.iter().map(|(a, b)| (0, a.to_string(), b.to_string())).collect()
}

// ---- H01 ----

const ONE: u64 = 0x3ff0_0000_0000_0000;

/// instants of a window, some outside it
fn instants(w: (u64, u64)) -> Vec<i64> {
    vec![w.0 as i64 - 1, w.0 as i64, w.0 as i64 + 1, w.0 as i64 + 1000, w.1 as i64, w.1 as i64 + 1]
}

/// All queries over the series of case `n`.
fn all_queries(n: &str, w: (u64, u64)) -> Vec<Query> {
    let mut t = instants(w);
    t.extend([0, -1, i64::MIN, i64::MAX]);
    let mut v = vec![];
    for a in &t {
        for b in &t {
            for m in [eq(&[("n", n)]), eq(&[("l", "a"), ("n", n)]), eq(&[("n", n), ("l", "b")]), eq(&[("n", n), ("l", "zz")]), eq(&[("n", n), ("zz", "a")])] {
                v.push(Query { start: *a, end: *b, matchers: m });
            }
        }
    }
    v
}

/// A write request of a case: per series, which of the samples.
type Plan = Vec<(usize, Vec<usize>)>;

fn realize(p: &Plan, n: &str, w: (u64, u64), salt: u64) -> Vec<Series> {
    let t = instants(w);
    p.iter()
        .map(|(k, ts)| Series {
            labels: match k {
                0 => lab(&[("n", n), ("l", "a")]),
                1 => lab(&[("n", n), ("l", "b")]),
                2 => lab(&[("l", "a"), ("n", n)]),
                _ => lab(&[("n", n)]),
            },
            samples: ts.iter().enumerate().map(|(i, x)| (t[*x], ONE + salt * 16 + i as u64)).collect(),
        })
        .collect()
}

pub fn h01(r: &mut Report) {
    r.rule("A server on the real sled, over HTTP on the loopback network, one per worker. Every sequence of requests is followed by a read request that asks for all selectors and ranges, whose results are compared, one by one, with a model. Labels are unique per case. Also every count up to a bound of samples, series, labels, queries and repeated series in a request; values, messages and bodies with lengths at and next to the powers of two up to 1 MB; requests of thousands of samples, series or queries; bodies of up to 32 MB (thorough 128 MB).");
    r.assume("label names are not repeated within a series, and queries have at least one matcher; a remote write leaves out samples that are outside the open window (see D01)");
    r.assume("the scheduler is not controlled here: the server handles one request at a time");
    // sequences of writes
    let n = r.pick(3, 4);
    let lists: Vec<Vec<usize>> = (0..=n).flat_map(|len| seqs(6, len)).collect();
    r.enumerate("write-one-series", lists.clone().into_iter(), |ts| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let x = realize(&vec![(0, ts.clone())], &n, s.w, 1);
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            let q = all_queries(&n, s.w);
            Ok((ask_all(s, &spec, &q, "after one write")?, q.len() as u64))
        })
    });
    // instants far from the window, the negative ones of those in it among them
    let n = r.pick(3, 4);
    r.enumerate("write-far-from-now", (1..=n).flat_map(|len| seqs(9, len)), |ts| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let (a, b) = (s.w.0 as i64, s.w.1 as i64);
            let far = [a, a + 7, -a, -a - 7, -b, -1, 0, i64::MIN, i64::MAX];
            let x = vec![Series { labels: lab(&[("n", &n), ("l", "a")]), samples: ts.iter().enumerate().map(|(i, k)| (far[*k], ONE + i as u64)).collect() }];
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            let q = all_queries(&n, s.w);
            Ok((ask_all(s, &spec, &q, "after a write of instants far from the window")?, q.len() as u64))
        })
    });
    let short: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![1, 3], vec![3, 2], vec![0, 4, 5]];
    let mut plans: Vec<Plan> = vec![];
    for a in 0..4 {
        for x in &short {
            plans.push(vec![(a, x.clone())]);
            for b in 0..4 {
                for y in &short {
                    plans.push(vec![(a, x.clone()), (b, y.clone())]);
                }
            }
        }
    }
    r.enumerate("write-two-series", plans.clone().into_iter(), |p| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let x = realize(p, &n, s.w, 1);
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            Ok((ask_all(s, &spec, &all_queries(&n, s.w), "after one write")?, 1))
        })
    });
    let few: Vec<Plan> = vec![
        vec![],
        vec![(0, vec![1])],
        vec![(0, vec![2, 3])],
        vec![(1, vec![2])],
        vec![(2, vec![3])],
        vec![(0, vec![1]), (1, vec![1])],
        vec![(3, vec![4])],
        vec![(0, vec![0]), (1, vec![5])],
    ];
    let depth = r.pick(3, 4);
    r.enumerate("several-writes", (2..=depth).flat_map(|l| seqs(few.len(), l)), |seq| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let mut print = 0;
            for (k, i) in seq.iter().enumerate() {
                let x = realize(&few[*i], &n, s.w, k as u64);
                want(s.write(&x)?, "a write")?;
                account(&mut spec, s.w, &x);
                print = ask_all(s, &spec, &all_queries(&n, s.w), &format!("after write {}", k + 1))?;
            }
            Ok((print, seq.len() as u64 * 2))
        })
    });
    // the results of a read are those of its queries, in their order
    let qn = 9;
    let depth = r.pick(3, 4);
    r.enumerate("queries-of-a-read", (0..=depth).flat_map(|l| seqs(qn, l)), |seq| {
        with(5000, |s| {
            if seq.is_empty() {
                return Ok((0, 0));
            }
            let mut spec = Spec::default();
            let x: Vec<Series> = (0..3).flat_map(|k| realize(&vec![(k, vec![1, 2, 3])], "queries", s.w, 5)).collect();
            if !s.ready {
                want(s.write(&x)?, "the write")?;
                s.ready = true;
            }
            account(&mut spec, s.w, &x);
            let t = instants(s.w);
            let q: Vec<Query> = seq
                .iter()
                .map(|k| {
                    let m = [eq(&[("n", "queries")]), eq(&[("n", "queries"), ("l", "a")]), eq(&[("n", "nobody")])][k % 3].clone();
                    let (a, b) = [(t[0], t[5]), (t[1], t[1]), (t[2], t[3])][k / 3];
                    Query { start: a, end: b, matchers: m }
                })
                .collect();
            Ok((ask_all(s, &spec, &q, "several queries")?, q.len() as u64))
        })
    });
    // many of everything
    let mut counts: Vec<usize> = (1..=r.pick(70, 150)).collect();
    counts.extend([127, 128, 129, 255, 256, 257, 600]);
    if r.thorough {
        counts.extend([1000, 1024, 2048, 4097]);
    }
    r.enumerate("many", counts.into_iter().flat_map(|n| (0..6).map(move |k| (k, n))), |(k, n)| {
        let (k, n) = (*k, *n);
        // samples of a series; series; labels of a series; queries of a read; long labels
        if k >= 1 && n > 300 && k != 4 {
            return Ok((0, 0));
        }
        with(400, |s| {
            let u = unique();
            let mut spec = Spec::default();
            let at = s.w.0 as i64 + 5;
            let text = |i: usize| format!("v{}", i);
            let x: Vec<Series> = match k {
                0 => vec![Series { labels: lab(&[("n", &u)]), samples: (0..n).map(|i| (at + i as i64, ONE + i as u64)).collect() }],
                1 => (0..n).map(|i| Series { labels: lab(&[("n", &u), ("i", &text(i)), ("m", &text(i % 3))]), samples: vec![(at + i as i64 % 5, ONE + i as u64)] }).collect(),
                2 => {
                    let mut l: Vec<(String, String)> = (0..n).map(|i| (format!("l{}", i), text(i % 3))).collect();
                    l.push(("n".into(), u.clone()));
                    vec![Series { labels: l, samples: vec![(at, ONE)] }]
                }
                3 => (0..2).map(|i| Series { labels: lab(&[("n", &u), ("i", &text(i))]), samples: (0..3).map(|j| (at + j, ONE + (3 * i as i64 + j) as u64)).collect() }).collect(),
                4 => vec![Series { labels: lab(&[("n", &u), ("long", &"x".repeat(n * 50))]), samples: vec![(at, ONE)] }, Series { labels: lab(&[("n", &u), ("long", &"x".repeat(n * 50 + 1))]), samples: vec![(at, ONE + 1)] }],
                // the same series over and over in one request
                _ => (0..n).map(|i| Series { labels: lab(&[("n", &u), ("m", &text(i % 2))]), samples: vec![(at + i as i64 / 2, ONE + i as u64)] }).collect(),
            };
            want(s.write(&x)?, &format!("the write of {:?}", (k, n)))?;
            account(&mut spec, s.w, &x);
            let mut q = vec![
                Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &u)]) },
                Query { start: at, end: at, matchers: eq(&[("n", &u)]) },
                Query { start: at + n as i64 / 2, end: i64::MAX, matchers: eq(&[("n", &u)]) },
                Query { start: 0, end: i64::MAX, matchers: eq(&[("m", "v1"), ("n", &u)]) },
            ];
            if k == 2 || k == 4 {
                q.push(Query { start: 0, end: at, matchers: x[0].labels.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect() });
                let mut m: Vec<_> = x[0].labels.iter().map(|l| (0, l.0.clone(), l.1.clone())).collect();
                m.reverse();
                m[n / 2 % 2].2.push('y');
                q.push(Query { start: 0, end: at, matchers: m });
            }
            if k == 3 {
                q = (0..n).map(|i| Query { start: at + i as i64 % 3, end: at + 2, matchers: if i % 4 == 3 { eq(&[("n", &u)]) } else { eq(&[("n", &u), ("i", &text(i % 3))]) } }).collect();
            }
            Ok((ask_all(s, &spec, &q, &format!("{:?}", (k, n)))?, q.len() as u64))
        })
    });
    // values
    let mut bits: Vec<u64> = (0..64).map(|k| 1u64 << k).collect();
    bits.extend((0..64).map(|k| !(1u64 << k)));
    bits.extend((0..52).map(|k| 0x7ff0_0000_0000_0000 | 1 << k));
    bits.extend([0, u64::MAX, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0002, ONE, f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits()]);
    bits.retain(|b| *b != 1 << 63);
    r.enumerate("values", bits.into_iter(), |v| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let x = [Series { labels: lab(&[("n", &n)]), samples: vec![(s.w.0 as i64, *v), (s.w.0 as i64 + 1, ONE), (s.w.0 as i64 + 2, *v)] }];
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            Ok((ask_all(s, &spec, &[Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n)]) }], "one value")? ^ v, 2))
        })
    });
    r.enumerate("negative-zero", [1u64 << 63].into_iter(), |v| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let x = [Series { labels: lab(&[("n", &n)]), samples: vec![(s.w.0 as i64, *v)] }];
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            Ok((ask_all(s, &spec, &[Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n)]) }], "minus zero")?, 2))
        })
    });
    // labels
    let alphabet = ["a", "B", "_", "", " ", "=", ",", "\"", "\\", "\0", "\n", "{", "}", "é", "漢", "🦀", "R", "L", "I", "1", "/", "\u{7f}", "\u{feff}"];
    let len = r.pick(2, 3);
    let words: Vec<String> = (1..=len).flat_map(|l| seqs(alphabet.len(), l)).map(|w| w.iter().map(|i| alphabet[*i]).collect::<String>()).collect();
    let words: BTreeSet<String> = words.into_iter().collect();
    r.enumerate("labels", words.iter().filter(|w| !w.is_empty()), |w| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let t = s.w.0 as i64;
            let mk = |l: Lab, k: i64| Series { labels: l, samples: vec![(t + k, ONE + k as u64)] };
            let x = [
                mk(lab(&[("n", &n), ("v", w)]), 0),
                mk(lab(&[("n", &n), (w, "v")]), 1),
                mk(lab(&[(w, &n)]), 2),
                mk(lab(&[("n", &format!("{}{}", n, w))]), 3),
                mk(lab(&[("n", &n)]), 4),
            ];
            // a label named n twice is not asked for
            let x: Vec<Series> = x.iter().filter(|x| x.labels.iter().map(|l| &l.0).collect::<BTreeSet<_>>().len() == x.labels.len()).cloned().collect();
            want(s.write(&x)?, "the write")?;
            account(&mut spec, s.w, &x);
            let q: Vec<Query> = [vec![("n", n.as_str())], vec![("n", &n), ("v", w)], vec![("n", &n), (w, "v")], vec![(w, &n)]]
                .iter()
                .filter(|m| m.len() < 2 || m[0].0 != m[1].0)
                .map(|m| Query { start: 0, end: i64::MAX, matchers: eq(m) })
                .chain(Some(Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &format!("{}{}", n, w))]) }))
                .collect();
            Ok((ask_all(s, &spec, &q, "labels")?, q.len() as u64))
        })
    });
    // fields this server does not know, in every message, first and last; defaults written out;
    // repeated scalars; samples before labels; lengths with padding
    let extra: Vec<(&str, Vec<u8>)> = vec![
        ("varint", f_var(15, u64::MAX)),
        ("fixed64", f_64(16, u64::MAX)),
        ("fixed32", f_32(2047, 7)),
        ("bytes", f_len(2048, &[0xff, 0, 0x0a, 0x80])),
        ("empty bytes", f_len(9, &[])),
        ("all of them", [f_var(15, 1), f_64(16, 2), f_32(17, 3), f_len(18, b"x")].concat()),
        ("metadata", f_len(3, &[f_var(1, 1), f_len(2, b"fam"), f_len(4, b"help")].concat())),
    ];
    let places = ["request first", "request last", "series first", "series last", "label first", "label last", "sample first", "sample last"];
    r.enumerate("unknown-fields", (0..extra.len() * places.len()).map(|k| (k % extra.len(), k / extra.len())), |(e, p)| {
        with(2000, |s| {
            let n = unique();
            let x = &extra[*e].1;
            let put = |at: usize, b: Vec<u8>| match () {
                _ if *p == at => [x.clone(), b].concat(),
                _ if *p == at + 1 => [b, x.clone()].concat(),
                _ => b,
            };
            if extra[*e].0 == "metadata" && *p > 1 {
                return Ok((0, 0));
            }
            let mut ser = vec![];
            for (a, b) in [("n", n.as_str()), ("l", "a")] {
                ser.extend(f_len(1, &put(4, label(a, b))));
            }
            for k in 0..2 {
                ser.extend(f_len(2, &put(6, sample(s.w.0 as i64 + k, ONE))));
            }
            let body = put(0, f_len(1, &put(2, ser)));
            want(s.post(WRITE, &body)?.status, "the write")?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &[Series { labels: lab(&[("n", &n), ("l", "a")]), samples: vec![(s.w.0 as i64, ONE), (s.w.0 as i64 + 1, ONE)] }]);
            Ok((ask_all(s, &spec, &all_queries(&n, s.w)[..60], "unknown fields in the write")?, 1))
        })
    });
    let forms = ["plain", "request unknown", "query unknown", "matcher unknown", "hints", "response types", "response types packed", "fields reversed", "defaults written", "last one counts"];
    r.enumerate("forms-of-a-read", 0..forms.len(), |k| {
        with(2000, |s| {
            let n = unique();
            let x = [Series { labels: lab(&[("n", &n)]), samples: vec![(s.w.0 as i64, ONE), (s.w.0 as i64 + 1, ONE + 1)] }];
            want(s.write(&x)?, "the write")?;
            let (a, b) = (s.w.0, s.w.0);
            let m = f_len(3, &matcher(&(0, "n".into(), n.clone())));
            let junk = [f_var(77, 1), f_len(78, b"x"), f_32(79, 1), f_64(80, 1)].concat();
            let q = [f_var(1, a), f_var(2, b), m.clone()].concat();
            let body = match forms[*k] {
                "request unknown" => [junk.clone(), f_len(1, &q), junk].concat(),
                "query unknown" => f_len(1, &[junk.clone(), q, junk].concat()),
                "matcher unknown" => f_len(1, &[f_var(1, a), f_var(2, b), f_len(3, &[junk.clone(), matcher(&(0, "n".into(), n.clone())), junk].concat())].concat()),
                "hints" => f_len(1, &[q, f_len(4, &[f_var(1, 15000), f_len(2, b"rate"), f_var(3, a), f_var(4, b), f_len(5, b"job"), f_var(6, 1), f_var(7, 300000)].concat())].concat()),
                "response types" => [f_len(1, &q), f_var(2, 0)].concat(),
                "response types packed" => [f_len(1, &q), f_len(2, &[0])].concat(),
                "fields reversed" => f_len(1, &[m, f_var(2, b), f_var(1, a)].concat()),
                "defaults written" => f_len(1, &[f_var(1, a), f_var(2, b), f_len(3, &[f_var(1, 0), f_len(2, b"n"), f_len(3, n.as_bytes())].concat())].concat()),
                "last one counts" => f_len(1, &[f_var(1, 0), f_var(2, 7), f_var(1, a), f_var(2, b), m].concat()),
                _ => f_len(1, &q),
            };
            let res = s.post(READ, &body)?;
            want(res.status, &format!("a read ({})", forms[*k]))?;
            let got = de_response(&res.body)?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            let e = vec![spec.query(&set(&[("n", &n)]), a, b)];
            if got != e {
                return Err(format!("a read ({}) is answered with {:?}, not {:?}", forms[*k], got, e));
            }
            Ok((*k as u64, 1))
        })
    });
    // ways to send a request
    let ways = ["plain", "close", "chunked", "expect", "expect-large", "large", "very-large", "split", "two-at-once"];
    r.enumerate("ways-to-send", (0..ways.len() * 2).map(|k| (k / 2, k % 2 == 0)), |(k, first)| {
        with(2000, |s| {
            let n = unique();
            let mut spec = Spec::default();
            let count = match ways[*k] {
                "large" | "expect-large" => 200,
                "very-large" => 2500,
                _ => 2,
            };
            // incompressible values
            let x = [Series { labels: lab(&[("n", &n)]), samples: (0..count).map(|i| (s.w.0 as i64 + i, ONE ^ (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 12)).collect() }];
            let body = snap(&write_request(&x));
            let q = [Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n)]) }];
            let ask = snap(&read_request(&q));
            // a read first, so that the write is not the first request of its connection
            let mut todo: Vec<(&str, &[u8])> = vec![(WRITE, &body), (READ, &ask)];
            if *first {
                todo.insert(0, (READ, &ask));
            }
            let mut conn = None;
            let mut got = vec![];
            for (path, b) in &todo {
                if conn.is_none() || ways[*k] == "close" {
                    conn = Some(wire::connect(s.port)?);
                }
                let c = conn.as_mut().unwrap();
                let f = match ways[*k] {
                    "close" => frame("POST", path, &["Connection: close"], b),
                    "chunked" => {
                        let mut o = frame("POST", path, &["Transfer-Encoding: chunked"], &[]);
                        for p in b.chunks(7) {
                            o.extend(format!("{:x}\r\n", p.len()).bytes());
                            o.extend_from_slice(p);
                            o.extend(b"\r\n");
                        }
                        o.extend(b"0\r\n\r\n");
                        o
                    }
                    w if w.starts_with("expect") => frame("POST", path, &["Expect: 100-continue"], b),
                    "two-at-once" => [frame("POST", path, &[], b), frame("POST", path, &[], b)].concat(),
                    _ => frame("POST", path, &[], b),
                };
                if ways[*k] == "split" {
                    for p in f.chunks(11) {
                        send(c, p, false)?;
                        std::thread::sleep(Duration::from_micros(300));
                    }
                } else {
                    send(c, &f, false)?;
                }
                if ways[*k] == "two-at-once" {
                    // both answers may arrive together
                    use std::io::Read;
                    let mut seen = vec![];
                    while seen.windows(9).filter(|w| w == b"HTTP/1.1 ").count() < 2 || seen.windows(2).filter(|w| w == b"OK").count() < 2 {
                        let mut t = [0u8; 4096];
                        match c.read(&mut t) {
                            Ok(n) if n > 0 => seen.extend_from_slice(&t[..n]),
                            _ => return Err(format!("two requests at once on {} are not both answered with 200", path)),
                        }
                    }
                    conn = None;
                    continue;
                }
                let x = response(c, false)?;
                want(x.status, &format!("a request to {} ({})", path, ways[*k]))?;
                got.push(x.body);
            }
            account(&mut spec, s.w, &x);
            if ways[*k] != "two-at-once" {
                let a = de_response(got.last().unwrap())?;
                let e = vec![answer(&spec, &q[0])];
                if a != e {
                    return Err(format!("sent this way ({}), {} samples come back as {}", ways[*k], count, a.iter().flat_map(|a| a.values()).map(|p| p.len()).sum::<usize>()));
                }
            }
            Ok((ask_all(s, &spec, &q, "sent this way")?, 3))
        })
    });
    // bodies of sizes around the powers of two, and answers as large
    let mut sizes: Vec<(usize, usize)> = vec![];
    for bits in 10..=r.pick(20, 22) {
        for near in [(1usize << bits) - 1, 1 << bits, (1 << bits) + 1] {
            for what in 0..3 {
                sizes.push((what, near));
            }
        }
    }
    r.enumerate("sizes", sizes.into_iter(), |(what, near)| {
        with(300, |s| {
            let n = unique();
            // text without repetitions
            let noise = |len: usize| -> String {
                let mut x = 0x9e37_79b9_7f4a_7c15u64 ^ *near as u64;
                (0..len)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (b'!' + (x >> 40) as u8 % 90) as char
                    })
                    .collect()
            };
            let sample = vec![(s.w.0 as i64 + 5, ONE)];
            let one = |len: usize| vec![Series { labels: lab(&[("n", &n), ("v", &noise(len))]), samples: sample.clone() }];
            let x = match what {
                // the length of a value, of the message, of the body
                0 => one(*near),
                1 => {
                    let over = write_request(&one(*near)).len() - near;
                    let len = (near.saturating_sub(over + 4)..=*near).find(|l| write_request(&one(*l)).len() == *near);
                    one(len.unwrap_or(near - over))
                }
                _ => {
                    let over = snap(&write_request(&one(*near))).len() - near;
                    let len = (near.saturating_sub(over + 8)..=*near).find(|l| snap(&write_request(&one(*l))).len() == *near);
                    one(len.unwrap_or(near - over))
                }
            };
            want(s.write(&x)?, &format!("a write of {} bytes", write_request(&x).len()))?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            let long = &x[0].labels[1].1;
            let q = [
                Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n)]) },
                Query { start: 0, end: i64::MAX, matchers: eq(&[("v", long)]) },
                Query { start: 0, end: i64::MAX, matchers: eq(&[("v", &long[1..])]) },
                Query { start: 0, end: i64::MAX, matchers: eq(&[("v", &long[..long.len() - 1])]) },
                Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n), ("v", long)]) },
            ];
            for q in &q {
                let got = s.read(&[q.clone()])?.map_err(|e| format!("with a value of {} bytes, a read is answered with {}", long.len(), e))?;
                if got.len() != 1 || got[0] != answer(&spec, q) {
                    return Err(format!("a series with a value of {} bytes, written in a body of {}, does not come back as it was written", long.len(), snap(&write_request(&x)).len()));
                }
            }
            Ok((*near as u64 * 3 + *what as u64, 6))
        })
    });
    // bodies of many megabytes, nearly all of which the server does not know
    let bits = r.pick(25, 27);
    r.enumerate("large-bodies", (21..=bits).flat_map(|b| [(b, true), (b, false)]), |(bits, first)| {
        with(300, |s| {
            let n = unique();
            let x = [Series { labels: lab(&[("n", &n)]), samples: (0..3).map(|i| (s.w.0 as i64 + i, ONE + i as u64)).collect() }];
            let mut r = 0x9e37_79b9_7f4a_7c15u64;
            let noise: Vec<u8> = (0..(1usize << bits) / 8 + 1)
                .flat_map(|_| {
                    r ^= r << 13;
                    r ^= r >> 7;
                    r ^= r << 17;
                    r.to_le_bytes().to_vec()
                })
                .collect();
            let q = Query { start: 0, end: i64::MAX, matchers: eq(&[("n", &n)]) };
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            for (path, known) in [(WRITE, write_request(&x)), (READ, read_request(&[q.clone()]))] {
                let body = if *first { [f_len(2048, &noise), known].concat() } else { [known, f_len(2048, &noise)].concat() };
                let a = s.post(path, &body)?;
                want(a.status, &format!("a request to {} with a body of {} bytes", path, body.len()))?;
                if path == READ && de_response(&a.body)? != [answer(&spec, &q)] {
                    return Err(format!("after a write in a body of {} bytes, a read in one as large is answered with other samples", body.len()));
                }
            }
            Ok((*bits as u64 * 2 + *first as u64, 3))
        })
    });
    // many queries in one read
    let n: Vec<usize> = r.pick(vec![999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 10_001], vec![999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 10_001, 65_537, 100_001]);
    r.enumerate("many-queries", n.into_iter(), |n| {
        with(300, |s| {
            let u = unique();
            let x: Vec<Series> = (0..7u64).map(|k| Series { labels: lab(&[("n", &u), ("k", &format!("{}{}", u, k))]), samples: vec![(s.w.0 as i64 + k as i64, ONE + k)] }).collect();
            want(s.write(&x)?, "the write")?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            let q: Vec<Query> = (0..*n).map(|i| Query { start: s.w.0 as i64 + i as i64 % 3, end: i64::MAX, matchers: eq(&[("k", &format!("{}{}", u, i % 7))]) }).collect();
            Ok((ask_all(s, &spec, &q, &format!("{} queries", n))?, *n as u64))
        })
    });
    // many samples, many series
    let many: Vec<(usize, usize)> = r.pick(vec![(1, 4095), (1, 4096), (1, 4097), (1, 12_000), (10_100, 1), (2048, 1), (2049, 2), (3000, 1), (100, 60)], vec![(1, 4095), (1, 4096), (1, 4097), (1, 20_000), (2048, 1), (2049, 2), (11_001, 1), (500, 60)]);
    r.enumerate("large-writes", many.into_iter(), |(count, each)| {
        with(50, |s| {
            let n = unique();
            let x: Vec<Series> = (0..*count)
                .map(|k| Series {
                    labels: lab(&[("n", &n), ("k", &format!("{}{}", n, k))]),
                    samples: (0..*each as i64).map(|i| (s.w.0 as i64 + i, ONE ^ (i as u64 * 31 + k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 12)).collect(),
                })
                .collect();
            want(s.write(&x)?, &format!("a write of {} series of {} samples", count, each))?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            for (a, b) in [(0, i64::MAX), (s.w.0 as i64 + *each as i64 / 2, i64::MAX), (0, s.w.0 as i64)] {
                let q = Query { start: a, end: b, matchers: eq(&[("n", &n)]) };
                let got = s.read(&[q.clone(), q.clone()])?.map_err(|e| format!("after a write of {} series of {} samples, a read is answered with {}", count, each, e))?;
                let e = answer(&spec, &q);
                if got.len() != 2 || got[0] != e || got[1] != e {
                    return Err(format!("of {} series of {} samples, {} series with {} samples come back", count, each, got[0].len(), got[0].values().map(|p| p.len()).sum::<usize>()));
                }
            }
            for k in [0, count / 2, count - 1] {
                let q = Query { start: 0, end: i64::MAX, matchers: eq(&[("k", &format!("{}{}", n, k))]) };
                ask_all(s, &spec, &[q], "after a large write")?;
            }
            Ok(((*count * 10_000 + *each) as u64, 7))
        })
    });
    // an error of the backend must not be acknowledged
    r.enumerate("failing-writes", (0..plans.len()).filter(|k| plans[*k].iter().all(|p| p.1.len() <= 2)).flat_map(|k| (1..=14).map(move |f| (k, f))), |(k, f)| {
        with(2000, |s| {
            let n = unique();
            let x = realize(&plans[*k], &n, s.w, 1);
            s.tally.reset(*f);
            let st = s.write(&x)?;
            let hit = s.tally.failed.load(SeqCst) > 0;
            s.tally.reset(0);
            if hit && st < 400 {
                return Err(format!("call {} of the backend failed and the write was answered with {}", f, st));
            }
            if !hit {
                want(st, "the write")?;
            }
            // again, and everything is there
            want(s.write(&x)?, "the repeated write")?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            Ok((ask_all(s, &spec, &all_queries(&n, s.w)[..60], "after the repeated write")? ^ hit as u64, 2))
        })
    });
}

// ---- H02 ----

#[derive(Clone, Debug)]
enum Damage {
    None,
    /// of the protobuf payload, compressed properly afterwards
    CutPayload(usize),
    SetPayload(usize, u8),
    DropPayload(usize),
    AddPayload(usize, u8),
    /// of the body
    CutBody(usize),
    SetBody(usize, u8),
    FlipTwo(usize, u8, usize, u8),
    /// in place of the body
    Body(Vec<u8>),
    Payload(Vec<u8>),
}

fn sample_write(n: &str, w: (u64, u64)) -> Vec<u8> {
    write_request(&[
        Series { labels: lab(&[("n", n), ("l", "a")]), samples: vec![(w.0 as i64 + 1, ONE), (w.0 as i64 + 2, ONE + 1)] },
        Series { labels: lab(&[("n", n), ("é", "b")]), samples: vec![(w.0 as i64 + 1, 0xfff8_0000_0000_0001)] },
    ])
}

fn sample_read(w: (u64, u64)) -> Vec<u8> {
    read_request(&[
        Query { start: w.0 as i64, end: w.1 as i64, matchers: eq(&[("n", "sentinel")]) },
        Query { start: w.0 as i64 + 1, end: w.0 as i64 + 1, matchers: eq(&[("n", "sentinel"), ("l", "a")]) },
    ])
}

fn sentinel(s: &mut Srv) -> Result<Spec, String> {
    let x = [
        Series { labels: lab(&[("n", "sentinel"), ("l", "a")]), samples: vec![(s.w.0 as i64 + 1, ONE), (s.w.0 as i64 + 2, ONE)] },
        Series { labels: lab(&[("n", "sentinel"), ("l", "b")]), samples: vec![(s.w.0 as i64 + 1, ONE)] },
    ];
    let mut spec = Spec::default();
    if !s.ready {
        want(s.write(&x)?, "the write")?;
        s.ready = true;
        s.tally.reset(0);
    }
    account(&mut spec, s.w, &x);
    Ok(spec)
}

fn damaged(d: &Damage, payload: Vec<u8>) -> Vec<u8> {
    let mut p = payload;
    match d {
        Damage::None => snap(&p),
        Damage::CutPayload(k) => {
            p.truncate(*k);
            snap(&p)
        }
        Damage::SetPayload(k, b) => {
            p[*k] = *b;
            snap(&p)
        }
        Damage::FlipTwo(i, x, j, y) => {
            p[*i] ^= x;
            p[*j] ^= y;
            snap(&p)
        }
        Damage::DropPayload(k) => {
            p.remove(*k);
            snap(&p)
        }
        Damage::AddPayload(k, b) => {
            p.insert(*k, *b);
            snap(&p)
        }
        Damage::CutBody(k) => {
            let mut b = snap(&p);
            b.truncate(*k);
            b
        }
        Damage::SetBody(k, x) => {
            let mut b = snap(&p);
            b[*k] = *x;
            b
        }
        Damage::Body(b) => b.clone(),
        Damage::Payload(b) => snap(b),
    }
}

/// Sends a body, and holds the answer and the effect against what the body means.
fn judge(s: &mut Srv, read: bool, body: &[u8], method: &str, path: &str) -> Result<(u64, u64), String> {
    let spec = sentinel(s)?;
    s.tally.reset(0);
    let res = s.raw(&frame(method, path, &[], body), method == "HEAD")?;
    let st = res.status;
    let wrote = s.tally.writes();
    if !(200..600).contains(&st) {
        return Err(format!("the answer has status {}", st));
    }
    if path != READ && path != WRITE {
        if wrote > 0 || st < 400 {
            return Err(format!("a request to {} is answered with {} and writes {} entries", path, st, wrote));
        }
        return Ok((st as u64, 1));
    }
    let payload = snap::raw::Decoder::new().decompress_vec(body).map_err(|_| Bad::Malformed);
    let print;
    if read {
        if wrote > 0 {
            return Err(format!("a read request wrote {} entries", wrote));
        }
        match payload.as_ref().map_err(|b| *b).and_then(|p| de_read(p)) {
            Err(Bad::Malformed) => {
                print = 1;
                if st < 400 {
                    return Err(format!("a malformed read request is answered with {}", st));
                }
            }
            Err(Bad::Unclear) => print = 2,
            Ok(q) => {
                print = 3 + q.len() as u64;
                // only plain equalities have one right answer (see H03)
                let plain = q.iter().all(|q| !q.matchers.is_empty() && q.matchers.iter().all(|m| m.0 == 0 && !m.2.is_empty()));
                let distinct = q.iter().all(|q| q.matchers.iter().map(|m| &m.1).collect::<BTreeSet<_>>().len() == q.matchers.len());
                if st == 200 && method != "HEAD" && plain && distinct && !q.is_empty() {
                    let mut got = de_response(&res.body)?;
                    // other cases' writes, damaged as they were, are left out
                    for g in got.iter_mut() {
                        g.retain(|k, _| k.contains(&("n".to_string(), "sentinel".to_string())));
                    }
                    let e: Vec<Answer> = q.iter().map(|q| answer(&spec, q)).collect();
                    if got != e {
                        return Err(format!("a read request for {:?} is answered with {:?}, not {:?}", q, got, e));
                    }
                }
            }
        }
    } else {
        match payload.as_ref().map_err(|b| *b).and_then(|p| de_write(p)) {
            Err(Bad::Malformed) => {
                print = 100;
                if st < 400 || wrote > 0 {
                    return Err(format!("a malformed write request is answered with {} and writes {} entries", st, wrote));
                }
            }
            Err(Bad::Unclear) => {
                print = 101;
                if st >= 400 && wrote > 0 {
                    return Err(format!("a write request is answered with {} after it wrote {} entries", st, wrote));
                }
            }
            Ok(x) => {
                print = 102 + x.len() as u64;
                let odd = x.iter().any(|x| x.labels.is_empty() || x.labels.iter().map(|l| &l.0).collect::<BTreeSet<_>>().len() != x.labels.len());
                if st >= 400 && wrote > 0 {
                    return Err(format!("a write request is answered with {} after it wrote {} entries", st, wrote));
                }
                if st < 400 && !odd {
                    let mut spec = Spec::default();
                    account(&mut spec, s.w, &x);
                    let got = s.tally.effect();
                    if got != spec.series {
                        return Err(format!("a write request for {:?} wrote {:?}", x, got));
                    }
                }
            }
        }
    }
    Ok((print * 1000 + st as u64, 1))
}

fn byte_values(thorough: bool, old: u8) -> Vec<u8> {
    if thorough {
        (0..=255).filter(|b| *b != old).collect()
    } else {
        let mut v: BTreeSet<u8> = (0..8).map(|k| old ^ (1 << k)).collect();
        v.extend([0, 1, 2, 7, 8, 9, 10, 12, 13, 14, 15, 17, 18, 24, 26, 127, 128, 255, old.wrapping_add(1), old.wrapping_sub(1)]);
        v.remove(&old);
        v.into_iter().collect()
    }
}

const TOO_LARGE: u64 = 1 << 26;

pub fn h02(r: &mut Report) {
    r.rule("As for H01. A well-formed write and a well-formed read, damaged in every way below; a decoder of the check's own says whether the result is still well-formed, and what it means then. After every request the standing connection has to go on working, and so has a new one.");
    r.assume("clients that stop in the middle of a request and keep the connection open are left out: the server handles one request at a time and waits for them");
    r.assume("bodies that claim to be longer than 64 MiB when decompressed are left out, so that the check does not need that memory");
    // the lengths of the samples, on a made-up window of the same magnitude
    let w = (1_800_000_000_000, 1_800_036_000_000);
    let thorough = r.thorough;
    let mut cases: Vec<(bool, Damage)> = vec![(false, Damage::None), (true, Damage::None)];
    for read in [false, true] {
        let p = if read { sample_read(w) } else { sample_write("c00000", w) };
        let b = snap(&p);
        for k in 0..p.len() {
            cases.push((read, Damage::CutPayload(k)));
            cases.push((read, Damage::DropPayload(k)));
            for x in byte_values(thorough, p[k]) {
                cases.push((read, Damage::SetPayload(k, x)));
            }
            for x in if thorough { (0..=255).collect() } else { vec![0u8, 1, 8, 10, 18, 26, 127, 128, 255] } {
                cases.push((read, Damage::AddPayload(k, x)));
            }
        }
        let flips: &[u8] = if thorough { &[1, 2, 3, 4, 8, 16, 32, 64, 127, 128] } else { &[1, 128] };
        for i in 0..p.len() {
            for j in i + 1..p.len() {
                for x in flips {
                    for y in flips {
                        cases.push((read, Damage::FlipTwo(i, *x, j, *y)));
                    }
                }
            }
        }
        for k in 0..b.len() {
            cases.push((read, Damage::CutBody(k)));
            for x in byte_values(thorough, b[k]) {
                cases.push((read, Damage::SetBody(k, x)));
            }
        }
        let short: Vec<u8> = vec![0, 1, 2, 8, 9, 10, 11, 12, 18, 127, 128, 255];
        for len in 0..=if thorough { 3 } else { 2 } {
            for s in seqs(short.len(), len) {
                let b: Vec<u8> = s.iter().map(|i| short[*i]).collect();
                cases.push((read, Damage::Body(b.clone())));
                cases.push((read, Damage::Payload(b)));
            }
        }
        for b in (0..=255).map(|b| vec![b]) {
            cases.push((read, Damage::Body(b.clone())));
            cases.push((read, Damage::Payload(b)));
        }
        // framed snappy, gzip, JSON, text, the other kind of request
        for b in [&b"\xff\x06\x00\x00sNaPpY\x01\x05\x00\x00\x00\x00\x00\x00a"[..], b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"{\"streams\":[]}", b"hello, world"] {
            cases.push((read, Damage::Body(b.to_vec())));
            cases.push((read, Damage::Payload(b.to_vec())));
        }
        cases.push((read, Damage::Body(p.clone())));
        cases.push((read, Damage::Payload(if read { sample_write("c00001", w) } else { sample_read(w) })));
        cases.push((read, Damage::Payload(vec![0x0b; 5000])));
        cases.push((read, Damage::Payload(vec![0x0a; 5000])));
        cases.push((read, Damage::Payload(vec![0x80; 5000])));
        cases.push((read, Damage::Payload(vec![0; 100_000])));
    }
    r.enumerate("damaged-bodies", cases.into_iter(), |(read, d)| {
        with(10_000, |s| {
            let p = if *read { sample_read(s.w) } else { sample_write(&unique_of(6), s.w) };
            let b = damaged(d, p);
            if claims(&b) > TOO_LARGE {
                return Ok((0, 0));
            }
            let res = judge(s, *read, &b, "POST", if *read { READ } else { WRITE }).map_err(|e| format!("{:?}, sent to {}: {}", d, if *read { "read" } else { "write" }, e));
            // the standing connection is used by the next case; this one looks from outside
            match (&res, s.alive()) {
                (_, Ok(())) => res,
                (Ok(_), Err(e)) => Err(format!("{:?}, sent to {}: {}", d, if *read { "read" } else { "write" }, e)),
                (Err(a), Err(b)) => Err(format!("{}; {}", a, b)),
            }
        })
    });
    let methods = ["POST", "GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "FOO"];
    let paths = [READ, WRITE, "/", "/api/v1/", "/api/v1/writes", "/api/v1/writ", "/api/v1/write/", "/api/v1/read/x", "/API/V1/WRITE", "//api/v1/write", "/api/v1/../v1/write", "*", "/%61pi/v1/write"];
    let bodies = 5;
    r.enumerate("paths-and-methods", (0..methods.len() * paths.len() * bodies), |k| {
        let (m, p, b) = (k % methods.len(), k / methods.len() % paths.len(), k / methods.len() / paths.len());
        with(10_000, |s| {
            let n = unique_of(6);
            let body = match b {
                0 => snap(&sample_write(&n, s.w)),
                1 => snap(&sample_read(s.w)),
                2 => vec![],
                3 => vec![255; 40],
                _ => snap(&[]),
            };
            let what = format!("{} {} with body {}", methods[m], paths[p], b);
            let x = judge(s, p == 0, &body, methods[m], paths[p]).map_err(|e| format!("{}: {}", what, e))?;
            s.alive().map_err(|e| format!("{}: {}", what, e))?;
            Ok((x.0, 1))
        })
    });
    // bodies that end before they should, or are framed wrongly
    let frames = ["short", "short-large", "long", "bad-chunk-size", "chunked-cut", "no-length", "negative-length", "text-length", "huge-length", "garbage", "empty", "half-headers"];
    r.enumerate("broken-framing", (0..frames.len() * 4).map(|k| (k / 4, k % 2 == 0, k % 4 < 2)), |(k, read, half)| {
        with(10_000, |s| {
            sentinel(s)?;
            s.tally.reset(0);
            let path = if *read { READ } else { WRITE };
            let big = frames[*k] == "short-large" || frames[*k] == "huge-length";
            let p = if *read {
                sample_read(s.w)
            } else if big {
                write_request(&[Series { labels: lab(&[("n", &unique_of(6))]), samples: (0..300).map(|i| (s.w.0 as i64 + i, ONE ^ (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15))).collect() }])
            } else {
                sample_write(&unique_of(6), s.w)
            };
            let b = snap(&p);
            let cut = &b[..b.len() * 2 / 3];
            let msg = match frames[*k] {
                "short" | "short-large" => frame("POST", path, &[&format!("Content-Length: {}", b.len())], cut),
                "long" => frame("POST", path, &[&format!("Content-Length: {}", cut.len()), "Connection: close"], &b),
                "bad-chunk-size" => frame("POST", path, &["Transfer-Encoding: chunked"], b"zz\r\nabc\r\n0\r\n\r\n"),
                "chunked-cut" => {
                    let mut o = frame("POST", path, &["Transfer-Encoding: chunked"], format!("{:x}\r\n", b.len()).as_bytes());
                    o.extend_from_slice(cut);
                    o
                }
                "no-length" => frame("POST", path, &["Content-Length-Not: 7", "Transfer-Encoding-Not: x", "Connection: close"], &[]),
                "negative-length" => frame("POST", path, &["Content-Length: -1", "Connection: close"], &[]),
                "text-length" => frame("POST", path, &["Content-Length: abc", "Connection: close"], &[]),
                "huge-length" => frame("POST", path, &["Content-Length: 50000"], &b),
                "garbage" => b.clone(),
                "empty" => vec![],
                _ => b"POST /api/v1/write HTTP/1.1\r\nHost".to_vec(),
            };
            let mut c = wire::connect(s.port)?;
            let _ = send(&mut c, &msg, true);
            if *half {
                // the client is gone before the answer
                drop(c);
            } else {
                let _ = response(&mut c, false);
                drop(c);
            }
            s.alive().map_err(|e| format!("{} sent to {}: {}", frames[*k], path, e))?;
            // what is there of it is a whole request
            let whole = frames[*k] == "huge-length";
            if s.tally.writes() > 0 && !whole {
                return Err(format!("a request that was cut short ({}) wrote {:?}", frames[*k], s.tally.effect()));
            }
            Ok((*k as u64, 1))
        })
    });
}

/// As `unique`, of a fixed length.
fn unique_of(len: usize) -> String {
    let n = CASE.fetch_add(1, SeqCst);
    format!("c{:0w$}", n % 10u64.pow(len as u32 - 1), w = len - 1)
}

// ---- H03 ----

const KINDS_OF_MATCHER: [&str; 4] = ["=", "!=", "=~", "!~"];

/// Patterns whose meaning is plain enough to be told here.
fn pattern(p: &str, v: &str) -> bool {
    match p {
        "" => v.is_empty(),
        ".*" => true,
        ".+" => !v.is_empty(),
        "x|y" => v == "x" || v == "y",
        "x.*" => v.starts_with('x'),
        "x." => v.chars().count() == 2 && v.starts_with('x'),
        "." => v.chars().count() == 1,
        "(x)" => v == "x",
        "[x]" | "x{1}" | "^x$" | "\\x78" => v == "x",
        "x+" => !v.is_empty() && v.chars().all(|c| c == 'x'),
        "y?x?" => ["", "x", "y", "yx"].contains(&v),
        "(?i)X" => v == "x" || v == "X",
        "1|3" | "[13]" => v == "1" || v == "3",
        p => p == v,
    }
}

fn satisfies(s: &Set, m: &(u64, String, String)) -> bool {
    let v = s.iter().find(|l| l.0 == m.1).map_or("", |l| l.1.as_str());
    match m.0 {
        0 => v == m.2,
        1 => v != m.2,
        2 => pattern(&m.2, v),
        _ => !pattern(&m.2, v),
    }
}

fn h03_data(s: &mut Srv) -> Result<Spec, String> {
    let t = s.w.0 as i64;
    let sets: [&[(&str, &str)]; 9] = [
        &[("n", "h03"), ("a", "x")],
        &[("n", "h03"), ("a", "y")],
        &[("n", "h03"), ("a", "xx"), ("b", "x")],
        &[("n", "h03"), ("a", "x"), ("b", "y")],
        &[("n", "h03"), ("b", "x")],
        &[("n", "h03")],
        &[("n", "other"), ("a", "x|y"), ("b", ".*")],
        &[("n", "h03"), ("a", "x."), ("b", "[x]")],
        &[("n", "h03"), ("a", "X"), ("b", "y?x?")],
    ];
    let x: Vec<Series> = sets.iter().enumerate().map(|(k, l)| Series { labels: lab(l), samples: vec![(t, ONE + k as u64), (t + 1, ONE)] }).collect();
    if !s.ready {
        want(s.write(&x)?, "the write")?;
        s.ready = true;
        s.tally.reset(0);
    }
    let mut spec = Spec::default();
    account(&mut spec, s.w, &x);
    Ok(spec)
}

pub fn h03(r: &mut Report) {
    r.rule("As for H01. Nine series; every combination of up to three matchers over four types, names and values, asked for alone and next to another query; matchers for all texts that are easily taken for one another, next to series with each of them; up to 40 (thorough 100) matchers, one of which decides, at every place. A read answered with success has to return exactly the series that satisfy all matchers by Prometheus' rules (an absent label is an empty one); otherwise it has to be answered with an error. With the k-th call to the backends failing, the answer has to be an error.");
    r.assume("queries without any matcher that requires a non-empty value, which Prometheus does not send, may be answered with fewer series");
    let names = ["a", "b", "n", "c"];
    let values = ["x", "y", "", "x|y", ".*", ".+", "x.*", "h03", "x.", ".", "(x)", "[x]", "x{1}", "^x$", "\\x78", "x+", "y?x?", "(?i)X"];
    let mut one: Vec<(u64, String, String)> = vec![];
    for t in 0..4 {
        for n in names {
            for v in values {
                one.push((t, n.into(), v.into()));
            }
        }
    }
    let total = one.len();
    let mut combos: Vec<(Vec<usize>, bool)> = vec![];
    for i in 0..total {
        combos.push((vec![i], false));
        combos.push((vec![i], true));
        for j in 0..total {
            combos.push((vec![i, j], true));
            if r.thorough || (i + j) % 3 == 0 {
                combos.push((vec![i, j], false));
            }
            if r.thorough && i < j {
                for k in j + 1..total {
                    if one[i].1 != one[j].1 && one[k].1 != one[j].1 && one[i].1 != "c" && one[j].1 != "c" {
                        combos.push((vec![i, j, k], true));
                    }
                }
            }
        }
    }
    r.enumerate("matchers", combos.into_iter(), |(m, with_n)| {
        with(u64::MAX, |s| {
            let spec = h03_data(s)?;
            let mut ms: Vec<(u64, String, String)> = m.iter().map(|k| one[*k].clone()).collect();
            if *with_n {
                ms.push((0, "n".into(), "h03".into()));
            }
            let q = Query { start: 0, end: i64::MAX, matchers: ms.clone() };
            let show: Vec<String> = ms.iter().map(|m| format!("{}{}{:?}", m.1, KINDS_OF_MATCHER[m.0 as usize], m.2)).collect();
            let show = format!("{{{}}}", show.join(","));
            let all = spec.query(&Set::new(), 0, u64::MAX);
            let e: Answer = all.into_iter().filter(|(k, _)| ms.iter().all(|m| satisfies(k, m))).collect();
            let firm = ms.iter().any(|m| m.0 == 0 && !m.2.is_empty());
            let plain = ms.iter().all(|m| m.0 == 0 && !m.2.is_empty());
            let mut print = 0;
            for pair in [false, true] {
                let sure = Query { start: s.w.0 as i64, end: s.w.0 as i64, matchers: eq(&[("n", "other")]) };
                let qs = if pair { vec![sure.clone(), q.clone(), sure.clone()] } else { vec![q.clone()] };
                match s.read(&qs)? {
                    Err(st) => {
                        if plain {
                            return Err(format!("{} is answered with {}", show, st));
                        }
                        if st < 400 {
                            return Err(format!("{} is answered with {}", show, st));
                        }
                        print += 1;
                    }
                    Ok(got) => {
                        if got.len() != qs.len() {
                            return Err(format!("{}: {} results for {} queries", show, got.len(), qs.len()));
                        }
                        let g = if pair { &got[1] } else { &got[0] };
                        if pair && (got[0] != answer(&spec, &sure) || got[2] != answer(&spec, &sure)) {
                            return Err(format!("{}: the queries next to it are answered wrongly", show));
                        }
                        for k in g.keys() {
                            if let Some(m) = ms.iter().find(|m| !satisfies(k, m)) {
                                return Err(format!("{} is answered with {:?}, which {}{}{:?} excludes", show, k, m.1, KINDS_OF_MATCHER[m.0 as usize], m.2));
                            }
                        }
                        if firm && g != &e {
                            return Err(format!("{} is answered with {}, not {}", show, show_answer(g, s.w), show_answer(&e, s.w)));
                        }
                        print += 10 + g.len() as u64;
                    }
                }
            }
            Ok((print, 2))
        })
    });
    // many matchers, all but one of which both of two series satisfy
    let n = r.pick(40, 100);
    r.enumerate("many-matchers", (1..=n).flat_map(|n| (0..=n).filter(move |p| n <= 20 || [0, 1, n / 2, n - 1, n].contains(p)).map(move |p| (n, p))), |(n, p)| {
        with(300, |s| {
            let u = unique();
            let name = |k: usize| format!("l{}", k);
            // the second series differs in the last label from the first, the third has one label less
            let l = |last: &str, n: usize| -> Lab {
                let mut l: Lab = (0..n).map(|k| (name(k), if k + 1 == n { last.to_string() } else { "1".to_string() })).collect();
                l.push(("n".into(), u.clone()));
                l
            };
            let t = s.w.0 as i64;
            let x = [("1", *n), ("2", *n), ("1", n - 1)].iter().enumerate().map(|(k, (v, n))| Series { labels: l(v, *n), samples: vec![(t, ONE + k as u64)] }).collect::<Vec<_>>();
            want(s.write(&x)?, "the write")?;
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            let all = spec.query(&Set::new(), 0, u64::MAX);
            // the one that decides stands at place p
            let rest: Vec<(u64, String, String)> = (0..n - 1).map(|k| (0, name(k), "1".to_string())).chain(Some((0, "n".to_string(), u.clone()))).collect();
            for one in [(0, name(n - 1), "1"), (0, name(n - 1), "2"), (0, name(n - 1), "3"), (0, name(*n), "1"), (1, name(n - 1), "2"), (2, name(n - 1), "1|3"), (3, name(n - 1), "[13]"), (0, name(n - 1), "")] {
                let mut ms = rest.clone();
                ms.insert(*p, (one.0, one.1, one.2.to_string()));
                let e: Answer = all.iter().filter(|(k, _)| ms.iter().all(|m| satisfies(k, m))).map(|(k, v)| (k.clone(), v.clone())).collect();
                match s.read(&[Query { start: 0, end: i64::MAX, matchers: ms.clone() }])? {
                    Err(st) if st >= 400 && ms[*p] .0 + (ms[*p].2.is_empty() as u64) > 0 => {}
                    Err(st) => return Err(format!("{} matchers, {:?} among them, are answered with {}", ms.len(), ms[*p], st)),
                    Ok(got) if got.len() == 1 && got[0] == e => {}
                    Ok(got) => return Err(format!("{} matchers, {:?} among them at place {}, are answered with {}, not {}", ms.len(), ms[*p], p, got.iter().map(|g| show_answer(g, s.w)).collect::<String>(), show_answer(&e, s.w))),
                }
            }
            Ok(((*n * 1000 + *p) as u64, 9))
        })
    });
    // texts that are easily taken for one another, as names and values of series and of matchers
    let odd: Vec<String> = crate::core::lookalikes().into_iter().filter(|w| !w.is_empty()).collect();
    let odd = &odd;
    let n = odd.len();
    r.enumerate("lookalikes", 0..n, |j| {
        with(u64::MAX, |s| {
            let t = s.w.0 as i64;
            // every series has another one of them, as a value and as a name
            let mut x: Vec<Series> = odd.iter().enumerate().map(|(k, w)| Series { labels: lab(&[("t", "h03"), ("v", w)]), samples: vec![(t, ONE + k as u64)] }).collect();
            x.extend(odd.iter().enumerate().map(|(k, w)| Series { labels: lab(&[("u", "h03"), (w, "odd")]), samples: vec![(t, ONE + k as u64)] }));
            if !s.odd {
                want(s.write(&x)?, "the write")?;
                s.odd = true;
            }
            let mut spec = Spec::default();
            account(&mut spec, s.w, &x);
            let w = odd[*j].as_str();
            for m in [vec![("v", w)], vec![("t", "h03"), ("v", w)], vec![(w, "odd")], vec![(w, "odd"), ("u", "h03")], vec![("t", w)], vec![(w, "h03")]] {
                let q = Query { start: 0, end: i64::MAX, matchers: eq(&m) };
                match s.read(&[q.clone()])? {
                    Ok(got) if got == [answer(&spec, &q)] => {}
                    Ok(got) => return Err(format!("{:?} is answered with {}, not {}", m, show_answer(&got[0], s.w), show_answer(&answer(&spec, &q), s.w))),
                    Err(st) => return Err(format!("{:?} is answered with {}", m, st)),
                }
            }
            Ok((*j as u64, 6))
        })
    });
    // the k-th call fails
    let queries: Vec<Vec<Query>> = {
        let q = |m: &[(&str, &str)]| Query { start: 0, end: i64::MAX, matchers: eq(m) };
        let base = [q(&[("n", "h03")]), q(&[("n", "h03"), ("a", "x")]), q(&[("n", "other")]), q(&[("n", "nobody")])];
        let n = r.pick(2, 3);
        (1..=n).flat_map(|l| seqs(4, l)).map(|s| s.iter().map(|k| base[*k].clone()).collect()).collect()
    };
    r.enumerate("failing-reads", queries.iter().flat_map(|q| (1..=24).map(move |f| (q, f))), |(q, f)| {
        with(u64::MAX, |s| {
            let spec = h03_data(s)?;
            s.tally.reset(*f);
            let got = s.read(q)?;
            let hit = s.tally.failed.load(SeqCst) > 0;
            s.tally.reset(0);
            match got {
                Err(st) if st >= 400 && hit => {}
                Err(st) => return Err(format!("a read is answered with {} although nothing failed", st)),
                Ok(_) if hit => return Err(format!("call {} of the backend failed and the read was answered with success", f)),
                Ok(got) => {
                    let e: Vec<Answer> = q.iter().map(|q| answer(&spec, q)).collect();
                    if got != e {
                        return Err(format!("a read is answered with {:?}, not {:?}", got, e));
                    }
                }
            }
            Ok((hit as u64, 1))
        })
    });
}

// ---- O01: the server program ----

/// A running server program; ends with this.
struct Program {
    child: std::process::Child,
    port: u16,
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

enum Start {
    Up(Program),
    Refused,
}

/// Starts the program and waits until it serves or ends.
fn program(args: &[String], port: Option<u16>, clusters: &Path) -> Result<Start, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("monolith-server");
    let child = std::process::Command::new(exe)
        .args(args)
        .env("MONOLITH_MC_SCRATCH", mc::scratch())
        .env("MONOLITH_MC_TIKV", clusters)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("ENGINE: the server program does not start: {}", e))?;
    let mut p = Program { child, port: port.unwrap_or(0) };
    for _ in 0..3000 {
        if let Some(st) = p.child.try_wait().map_err(|e| e.to_string())? {
            return if st.success() { Err(format!("{:?}: the server ends as if all was well", args)) } else { Ok(Start::Refused) };
        }
        if let Some(port) = port {
            if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                return Ok(Start::Up(p));
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    Err(format!("{:?}: the server neither serves nor ends", args))
}

impl Program {
    fn post(&self, path: &str, payload: &[u8]) -> Result<Resp, String> {
        let mut c = wire::connect(self.port)?;
        send(&mut c, &frame("POST", path, &["Connection: close"], &snap(payload)), false)?;
        response(&mut c, false)
    }
}

/// What lies in a directory, and below it.
fn files_below(d: &Path) -> usize {
    std::fs::read_dir(d).map_or(0, |e| e.flatten().map(|e| if e.path().is_dir() { files_below(&e.path()) } else { 1 }).sum())
}

/// Where the stand-in for TiKV keeps the clusters that servers of this data directory use.
fn cluster_dir(dir: &Path) -> std::path::PathBuf {
    let d = dir.with_extension("clusters");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// The clusters that anything was written to.
fn clusters_used(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(cluster_dir(dir)).map_or(vec![], |e| e.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect());
    v.sort();
    v
}

/// A free port that no other case has had.
fn own_port() -> u16 {
    static USED: Mutex<BTreeSet<u16>> = Mutex::new(BTreeSet::new());
    loop {
        let p = free_port();
        if USED.lock().unwrap().insert(p) {
            return p;
        }
    }
}

#[derive(Clone, Debug)]
struct Launch {
    storage: &'static str,
    indexer: &'static str,
    chunk: Option<u64>,
    paths: Option<(&'static str, &'static str)>,
    workers: Option<&'static str>,
    config: Option<&'static str>,
    short: bool,
}

fn launch_args(l: &Launch, dir: &Path, port: u16) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let s = |n: &str, long: &str| if l.short { format!("-{}", n) } else { format!("--{}", long) };
    a.extend([s("s", "storage"), l.storage.into(), s("i", "indexer"), l.indexer.into(), s("d", "file_dir"), dir.to_str().unwrap().into()]);
    a.extend(["--port".to_string(), port.to_string()]);
    if let Some(c) = l.chunk {
        a.extend(["--chunk_size".to_string(), c.to_string()]);
    }
    if let Some((r, w)) = l.paths {
        a.extend(["--read_path".to_string(), r.into(), "--write_path".to_string(), w.into()]);
    }
    if let Some(n) = l.workers {
        a.extend(["--worker_num".to_string(), n.into()]);
    }
    if let Some(text) = l.config {
        let f = dir.with_extension("yaml");
        std::fs::write(&f, text).unwrap();
        a.extend(["--tikv_config".to_string(), f.to_str().unwrap().into()]);
    }
    a
}

fn up(l: &Launch, dir: &Path) -> Result<Program, String> {
    for _ in 0..3 {
        let port = own_port();
        let a = launch_args(l, dir, port);
        if let Start::Up(p) = program(&a, Some(port), &cluster_dir(dir))? {
            return Ok(p);
        }
    }
    Err(format!("{:?}: the server does not start", l))
}

fn write_and_read(p: &Program, l: &Launch, spec: &mut Spec, w: (u64, u64), n: &str) -> Result<(), String> {
    let (read, write) = l.paths.unwrap_or(("/read", "/write"));
    let x = [Series { labels: lab(&[("n", n)]), samples: vec![(w.1 as i64 - 1, ONE), (w.1 as i64, ONE + 1)] }];
    want(p.post(write, &write_request(&x))?.status, &format!("{:?}: a write", l))?;
    account(spec, w, &x);
    read_back(p, l, spec, n)?;
    for other in ["/", "/r", "/read", "/write", "/Write", "/readx", "/api", "/api/v1/readwrite"] {
        if other == read || other == write {
            continue;
        }
        let st = p.post(other, &write_request(&x))?.status;
        if st < 400 {
            return Err(format!("{:?}: a request for {:?} is answered with {}", l, other, st));
        }
    }
    Ok(())
}

fn read_back(p: &Program, l: &Launch, spec: &Spec, n: &str) -> Result<(), String> {
    let (read, _) = l.paths.unwrap_or(("/read", "/write"));
    let q = Query { start: 0, end: i64::MAX, matchers: eq(&[("n", n)]) };
    let r = p.post(read, &read_request(&[q.clone()]))?;
    want(r.status, &format!("{:?}: a read", l))?;
    let got = de_response(&r.body)?;
    if got != [answer(spec, &q)] {
        return Err(format!("{:?}: a read is answered with {:?}, not {:?}", l, got, answer(spec, &q)));
    }
    Ok(())
}

pub fn program_options(r: &mut Report) {
    let backends = ["sled", "tikv"];
    let chunks = [None, Some(3600), Some(86_400)];
    let paths = [None, Some(("/api/v1/read", "/api/v1/write")), Some(("/write", "/read"))];
    let workers = [None, Some("1"), Some("3")];
    let configs = [None, Some("dry_run: true\n"), Some("dry_run: false\npd_endpoints:\n - 127.0.0.1:1\n - 127.0.0.1:2\n")];
    let mut all = vec![];
    for i in 0..4 * 81 {
        let (b, c, p, w, t) = (i % 4, i / 4 % 3, i / 12 % 3, i / 36 % 3, i / 108);
        // quick: every pair of values of any two options, with each choice of backends
        if r.thorough || ((c + p + w) % 3 == 0 && (c + 2 * p + t) % 3 == 0) {
            all.push(Launch { storage: backends[b % 2], indexer: backends[b / 2], chunk: chunks[c], paths: paths[p], workers: workers[w], config: configs[t], short: (c + p) % 2 == 1 });
        }
    }
    r.enumerate("server-program", all.into_iter(), |l| {
        let dir = mc::scratch().join(format!("program{}", NUMBER.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        let mut spec = Spec::default();
        let p = up(l, &dir)?;
        let w = crate::db::windows(&dir);
        if w.len() != 1 || w[0].1 - w[0].0 != l.chunk.unwrap_or(12000) * 1000 {
            return Err(format!("{:?}: the windows are {:?}", l, w));
        }
        write_and_read(&p, l, &mut spec, w[0], "program")?;
        let chunk = std::fs::read_dir(&dir).map_err(|e| e.to_string())?.flatten().map(|e| e.path()).find(|p| p.is_dir()).ok_or("no chunk")?;
        for (what, kind) in [("storage", l.storage), ("indexer", l.indexer)] {
            if (files_below(&chunk.join(what)) > 0) != (kind == "sled") {
                return Err(format!("{:?}: there are {} files of the {}", l, files_below(&chunk.join(what)), what));
            }
        }
        let kept = l.config.map_or(false, |c| c.contains("pd_endpoints"));
        let uses_tikv = l.storage == "tikv" || l.indexer == "tikv";
        let want: Vec<String> = if kept && uses_tikv { vec!["cluster 127.0.0.1:1+127.0.0.1:2".into()] } else { vec![] };
        if clusters_used(&dir) != want {
            return Err(format!("{:?}: what is written goes to {:?} instead of {:?}", l, clusters_used(&dir), want));
        }
        // ended without notice, and started again: with what was in TiKV gone if it was a dry run
        if l.storage == "sled" || l.indexer == "sled" {
            std::thread::sleep(Duration::from_millis(1200));
        }
        drop(p);
        let other = Launch { storage: if l.storage == "sled" { "tikv" } else { "sled" }, ..l.clone() };
        let third = Launch { indexer: if l.indexer == "sled" { "tikv" } else { "sled" }, ..l.clone() };
        for o in [other, third] {
            let port = own_port();
            if let Start::Up(_) = program(&launch_args(&o, &dir, port), Some(port), &cluster_dir(&dir))? {
                return Err(format!("{:?}: opens what was made with {}, {}", o, l.storage, l.indexer));
            }
        }
        if kept || !uses_tikv {
            let p = up(l, &dir)?;
            read_back(&p, l, &spec, "program")?;
            let w = *crate::db::windows(&dir).last().unwrap();
            write_and_read(&p, l, &mut spec, w, "again")?;
            read_back(&p, l, &spec, "program")?;
        }
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_dir_all(&cluster_dir(&dir));
        Ok((fingerprint(&format!("{:?}", l)), 5))
    });
    let bad: Vec<(&str, &str)> = vec![
        ("--storage", "other"),
        ("--indexer", "other"),
        ("--storage", "Sled"),
        ("--storage", ""),
        ("--port", "80"),
        ("--port", "70000"),
        ("--port", "port"),
        ("--chunk_size", "1s"),
        ("--chunk_size", "-1"),
        ("--chunk_size", ""),
        ("--worker_num", "-1"),
        ("--worker_num", "two"),
        ("--unknown", "x"),
        ("--file_dir", "/dev/null/none"),
    ];
    r.enumerate("server-program-refuses", bad.into_iter(), |(o, v)| {
        let dir = mc::scratch().join(format!("program{}", NUMBER.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        let port = own_port();
        let mut a: Vec<String> = vec![o.to_string(), v.to_string()];
        if *o != "--port" {
            a.extend(["--port".to_string(), port.to_string()]);
        }
        if *o != "--file_dir" {
            a.extend(["--file_dir".to_string(), dir.to_str().unwrap().to_string()]);
        }
        if let Start::Up(_) = program(&a, Some(port), &cluster_dir(&dir))? {
            return Err(format!("{:?} is accepted", a));
        }
        let n = files_below(&dir);
        if n > 0 {
            return Err(format!("{:?} is refused, but leaves {} files", a, n));
        }
        Ok((fingerprint(&a), 1))
    });
    // a cluster that is asked for and cannot be found out is not replaced by something else
    let tikv = [("tikv", "tikv"), ("tikv", "sled"), ("sled", "tikv")];
    let texts = [None, Some("{"), Some("dry_run: maybe\n"), Some("pd_endpoints: 7\n")];
    r.enumerate("server-program-tikv-config", tikv.iter().flat_map(|b| texts.iter().map(move |t| (*b, *t))), |((s, i), text)| {
        let dir = mc::scratch().join(format!("program{}", NUMBER.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        let f = dir.with_extension("yaml");
        if let Some(t) = text {
            std::fs::write(&f, t).unwrap();
        }
        let port = own_port();
        let a: Vec<String> = ["--storage", s, "--indexer", i, "--port", &port.to_string(), "--file_dir", dir.to_str().unwrap(), "--tikv_config", f.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
        if let Start::Up(_) = program(&a, Some(port), &cluster_dir(&dir))? {
            return Err(format!("{:?} is accepted, with {:?} for the file of the cluster", a, text));
        }
        Ok((fingerprint(&format!("{:?}", (s, i, text))), 1))
    });
}

// ---- O01: the TiKV configuration file ----

#[derive(Clone, Debug)]
struct TiKvFile {
    text: String,
    /// where the data has to go: the endpoints of a cluster, or nowhere (in memory); or the file is refused
    want: Option<Option<Vec<String>>>,
}

fn tikv_files() -> Vec<TiKvFile> {
    let mut out = vec![];
    // without dry_run the documentation and the code differ, and both make sense: not asked for
    for dry in [Some(true), Some(false)] {
        for key in ["pd_endpoints", "pd_endpoint"] {
            for n in 0..4usize {
                for style in 0..4 {
                    for (order, other) in [(false, ""), (true, ""), (false, "name: x\n"), (true, "# dry_run: true\n")] {
                        // a cluster of its own for each file
                        let e: Vec<String> = (0..n).map(|k| format!("10.0.{}.{}:{}", out.len() / 200, out.len() % 200, 2379 + k)).collect();
                        let list = match style {
                            0 => format!("{}:\n{}", key, e.iter().map(|e| format!(" - {}\n", e)).collect::<String>()),
                            1 => format!("{}: [{}]\n", key, e.join(", ")),
                            2 => format!("{}: # of the cluster\n{}", key, e.iter().map(|e| format!("- \"{}\"\n", e)).collect::<String>()),
                            _ => format!("\"{}\": ['{}']\n", key, e.join("', '")),
                        };
                        let list = if n == 0 { String::new() } else { list };
                        let d = dry.map_or(String::new(), |d| format!("dry_run: {}{}\n", d, if style == 2 { " # or not" } else { "" }));
                        let text = if order { format!("{}{}{}", other, list, d) } else { format!("{}{}{}", d, other, list) };
                        if text.trim().is_empty() || text.trim().starts_with('#') && list.is_empty() && d.is_empty() || n == 0 && dry != Some(true) {
                            continue;
                        }
                        out.push(TiKvFile { text, want: Some(if dry == Some(true) { None } else { Some(e) }) });
                    }
                }
            }
        }
    }
    for bad in ["dry_run: maybe\n", "dry_run: [true]\n", "pd_endpoints: 7\n", "pd_endpoints: {a: b}\n", "- dry_run\n", "dry_run: false\npd_endpoints:\n - [a, b]\n", "dry_run: true\n  pd_endpoints: x\n", "{", "\0"] {
        out.push(TiKvFile { text: bad.into(), want: None });
    }
    out
}

pub fn tikv_config(r: &mut Report) {
    r.enumerate("tikv-config", tikv_files().into_iter(), |f| {
        let path = mc::scratch().join(format!("tikv{}.yaml", NUMBER.fetch_add(1, SeqCst)));
        std::fs::write(&path, &f.text).unwrap();
        let made = TiKvRawBackendSingleton::from_config_file(&path);
        let _ = std::fs::remove_file(&path);
        let (made, want) = match (made, &f.want) {
            (Err(_), None) => return Ok((1, 1)),
            (Err(e), Some(_)) => return Err(format!("{:?} is refused: {}", f.text, e)),
            (Ok(_), None) => return Err(format!("{:?} is accepted", f.text)),
            (Ok(m), Some(w)) => (m, w),
        };
        let e = |e: MonolithErr| format!("{:?}: {}", f.text, e);
        let c = ChunkOpts::default();
        let dir = path.with_extension("d");
        std::fs::create_dir_all(&dir).unwrap();
        let chunk = dir.to_str().unwrap().to_string();
        let s = TiKvStorageBuilder::new(made.clone()).map_err(e)?.build(chunk.clone(), Some(&c), None).map_err(e)?;
        let i = TiKvIndexerBuilder::new(made).map_err(e)?.build(chunk, Some(&c), None).map_err(e)?;
        let _ = std::fs::remove_dir_all(&dir);
        s.write_time_point(7, 5, 1.5).map_err(e)?;
        i.create_index(labels(&[("a", "b")]), 7).map_err(e)?;
        let p = s.read_time_series(7, 0, 10).map_err(e)?;
        if p.len() != 1 || p[0] != TimePoint::new(5, 1.5) {
            return Err(format!("{:?}: the storage has {:?}", f.text, p));
        }
        let text = |v: &[u8]| String::from_utf8_lossy(v).to_string();
        let named: Vec<String> = f.text.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == ':')).filter(|t| t.starts_with("10.0.")).map(String::from).collect();
        let names: Vec<&str> = named.iter().map(|s| s.as_str()).collect();
        let cluster = tikv_client::cluster(&names);
        let cluster = cluster.lock().unwrap();
        match want {
            Some(w) if *w != named => Err(format!("ENGINE: {:?}", f)),
            // at the least what says where the chunk's data are, the sample and the labels
            Some(_) if cluster.data.len() < 3 => Err(format!("{:?}: what is written does not go to the cluster, which has {:?}", f.text, cluster.data.keys().map(|k| text(k)).collect::<Vec<_>>())),
            None if !named.is_empty() && cluster.ops > 0 => Err(format!("{:?}: what is written goes to the cluster", f.text)),
            _ => Ok((fingerprint(&f.text), 5)),
        }
    });
    r.once("tikv-config-missing", || match TiKvRawBackendSingleton::from_config_file(&mc::scratch().join("no such file")) {
        Ok(_) => Err("a configuration that is not there is taken".into()),
        Err(_) => Ok(()),
    });
}
