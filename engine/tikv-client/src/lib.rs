//! Environment model of the TiKV raw client.
//!
//! The real `tikv-client` is a git dependency that cannot be fetched here. monolith uses only the
//! surface below: a configuration naming placement-driver endpoints, and a raw client with `get` and
//! `put` futures. The model keeps one linearizable in-memory map per endpoint list, which every
//! client connected to those endpoints shares and which outlives clients and (in a controlled
//! execution) processes: what a TiKV cluster provides. Inside a controlled execution every operation
//! is a scheduling, fault and crash point, and a failed `put` may or may not have taken effect.

use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vstd::mc;

#[derive(Debug, Clone)]
pub struct Error(pub String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

macro_rules! bytes {
    ($n:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $n(Vec<u8>);
        impl From<Vec<u8>> for $n {
            fn from(v: Vec<u8>) -> Self {
                $n(v)
            }
        }
        impl From<&[u8]> for $n {
            fn from(v: &[u8]) -> Self {
                $n(v.to_vec())
            }
        }
        impl From<String> for $n {
            fn from(v: String) -> Self {
                $n(v.into_bytes())
            }
        }
        impl From<&'static str> for $n {
            fn from(v: &'static str) -> Self {
                $n(v.as_bytes().to_vec())
            }
        }
        impl From<$n> for Vec<u8> {
            fn from(v: $n) -> Self {
                v.0
            }
        }
        impl AsRef<[u8]> for $n {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
    };
}
bytes!(Key);
bytes!(Value);

#[derive(Debug, Clone, Default)]
pub struct Config {
    pd_endpoints: Vec<String>,
}

impl Config {
    pub fn new(pd_endpoints: impl IntoIterator<Item = impl Into<String>>) -> Self {
        Config {
            pd_endpoints: pd_endpoints.into_iter().map(Into::into).collect(),
        }
    }
}

/// One simulated cluster.
#[derive(Default)]
pub struct Cluster {
    pub data: BTreeMap<Vec<u8>, Vec<u8>>,
    /// Operations performed so far.
    pub ops: u64,
    /// Values every changed key has had, in order (for append-only checks).
    pub log: Vec<(Vec<u8>, Vec<u8>)>,
    /// Where it is kept for other processes.
    file: Option<std::path::PathBuf>,
}

impl Cluster {
    /// A cluster for the server program run as a process: kept in a file of the directory that
    /// `MONOLITH_MC_TIKV` names, if it does.
    fn of_process(endpoints: &[String]) -> Cluster {
        let file = match std::env::var_os("MONOLITH_MC_TIKV") {
            Some(d) => std::path::Path::new(&d).join(format!("cluster {}", endpoints.join("+").replace('/', "_"))),
            None => return Cluster::default(),
        };
        let mut c = Cluster::default();
        let b = std::fs::read(&file).unwrap_or_default();
        let mut at = 0;
        let mut part = || {
            let n = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
            at += 4 + n;
            (b[at - n..at].to_vec(), at)
        };
        while !b.is_empty() {
            let (k, _) = part();
            let (v, end) = part();
            c.data.insert(k, v);
            if end == b.len() {
                break;
            }
        }
        c.file = Some(file);
        c
    }

    fn keep(&self, k: &[u8], v: &[u8]) {
        if let Some(f) = &self.file {
            let mut b = vec![];
            for p in [k, v] {
                b.extend((p.len() as u32).to_be_bytes());
                b.extend(p);
            }
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).expect("cluster file");
            std::io::Write::write_all(&mut f, &b).expect("cluster file");
        }
    }
}

type Clusters = HashMap<Vec<String>, Arc<Mutex<Cluster>>>;

fn clusters<R>(f: impl FnOnce(&mut Clusters) -> R) -> R {
    match mc::cur() {
        Some(c) => {
            let mut o = c.exec().objects.lock().unwrap_or_else(|e| e.into_inner());
            f(o.entry("tikv")
                .or_insert_with(|| Box::new(Clusters::new()) as Box<dyn Any + Send>)
                .downcast_mut::<Clusters>()
                .unwrap())
        }
        None => {
            static C: std::sync::OnceLock<Mutex<Clusters>> = std::sync::OnceLock::new();
            f(&mut C.get_or_init(Default::default).lock().unwrap())
        }
    }
}

/// Control interface of the model: the cluster reached by these endpoints.
pub fn cluster(endpoints: &[&str]) -> Arc<Mutex<Cluster>> {
    let k: Vec<String> = endpoints.iter().map(|s| s.to_string()).collect();
    clusters(|c| c.entry(k).or_default().clone())
}

#[derive(Clone)]
pub struct RawClient {
    cluster: Arc<Mutex<Cluster>>,
}

pub struct Ready<T>(Option<T>);

impl<T: Unpin> Future for Ready<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> {
        Poll::Ready(self.0.take().expect("polled after completion"))
    }
}

impl RawClient {
    pub fn new(config: Config) -> Result<RawClient> {
        if let Some(c) = mc::cur() {
            if !mc::dying() {
                c.point();
                if mc::fault("tikv connect") {
                    return Err(Error("injected TiKV failure".into()));
                }
            }
        }
        Ok(RawClient {
            cluster: clusters(|c| {
                let new = || match mc::cur() {
                    Some(_) => Cluster::default(),
                    None => Cluster::of_process(&config.pd_endpoints),
                };
                c.entry(config.pd_endpoints.clone()).or_insert_with(|| Arc::new(Mutex::new(new()))).clone()
            }),
        })
    }

    fn step<T>(&self, what: &'static str, change: bool, f: impl FnOnce(&mut Cluster) -> T) -> Result<T> {
        if let Some(c) = mc::cur() {
            if !mc::dying() {
                c.point();
            }
            if mc::dying() {
                return Err(Error("the process is gone".into()));
            }
            if change {
                mc::crash_point(what, 1);
            }
            if mc::dying() {
                return Err(Error("the process is gone".into()));
            }
            if mc::fault(what) {
                return Err(Error("injected TiKV failure".into()));
            }
            if change && mc::fault("tikv put (done, but the answer is lost)") {
                f(&mut self.cluster.lock().unwrap());
                return Err(Error("injected TiKV timeout".into()));
            }
        }
        let mut c = self.cluster.lock().unwrap();
        c.ops += 1;
        Ok(f(&mut c))
    }

    pub fn get(&self, key: impl Into<Key>) -> Ready<Result<Option<Value>>> {
        let key: Key = key.into();
        Ready(Some(self.step("tikv get", false, |c| {
            c.data.get(&key.0).cloned().map(Value)
        })))
    }

    pub fn put(&self, key: impl Into<Key>, value: impl Into<Value>) -> Ready<Result<()>> {
        let (key, value): (Key, Value) = (key.into(), value.into());
        Ready(Some(self.step("tikv put", true, |c| {
            c.keep(&key.0, &value.0);
            c.log.push((key.0.clone(), value.0.clone()));
            c.data.insert(key.0, value.0);
        })))
    }

    pub fn delete(&self, key: impl Into<Key>) -> Ready<Result<()>> {
        let key: Key = key.into();
        Ready(Some(self.step("tikv delete", true, |c| {
            c.data.remove(&key.0);
        })))
    }
}
