//! Every count up to a bound of what there can be many of: samples, series, labels, chunks, restarts.
use crate::core::Report;
use crate::db::*;
use crate::dbchecks::{Rig, CHUNK};
use crate::oracle::*;
use monolith::chunk::ChunkOpts;
use monolith::label::{Label, Labels};
use std::collections::BTreeMap;
use vstd::mc::{self, Cfg, End, Scenario};

const PD: [&str; 1] = ["pd"];

fn side(tikv: bool) -> &'static str {
    if tikv {
        "tikv"
    } else {
        "sled"
    }
}

fn cfg() -> Cfg {
    Cfg { max_steps: 3_000_000, sched_from_start: false, ..Cfg::default() }
}

fn chunk_dir() -> std::path::PathBuf {
    let dir = mc::root().join("chunk");
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

// ---- a storage ----

/// Samples of one series, one by one; after each, ranges at, around and between those that matter.
fn samples(tikv: bool, n: usize) {
    let step = [1u64, 255, 65_536, 10_007][mc::choose(4)];
    let s = storage_of(tikv, &chunk_dir(), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no storage: {}", e));
    let mut have: BTreeMap<u64, u64> = BTreeMap::new();
    let read = |have: &BTreeMap<u64, u64>, a: u64, b: u64| {
        let want: Vec<(u64, u64)> = if a <= b { have.range(a..=b).map(|(t, v)| (*t, *v)).collect() } else { vec![] };
        let got = s.read(7, a, b).unwrap_or_else(|e| panic!("reading {}..{} of {} samples failed: {}", a, b, have.len(), e));
        if got != want {
            let k = got.iter().zip(&want).take_while(|(g, w)| g == w).count();
            panic!("of {} samples, {} apart, {}..{} reads {} instead of {}, and differs at number {}", have.len(), step, a, b, got.len(), want.len(), k)
        }
    };
    for k in 0..n as u64 {
        let t = 1000 + k * step;
        s.put(7, t, value(k as usize)).unwrap_or_else(|e| panic!("write {} failed: {}", k + 1, e));
        have.insert(t, value(k as usize).to_bits());
        read(&have, 0, u64::MAX);
        read(&have, t, t);
        read(&have, 1000, t.saturating_sub(step));
        let mid = 1000 + k / 2 * step;
        read(&have, mid, u64::MAX);
        read(&have, mid + 1, t);
        read(&have, 0, mid);
        read(&have, mid, mid);
        read(&have, t + 1, u64::MAX);
        // ends next to samples, and between them
        read(&have, mid - 1, t - 1);
        read(&have, 1001, mid + 1);
        read(&have, mid + step / 2, mid + step + step / 2);
        read(&have, mid.saturating_sub(step / 2), t.saturating_sub(step / 2));
    }
    mc::outcome(format!("{} samples, {} apart", n, step));
}

/// So many samples of one series that two bytes cannot number what they take.
fn long_series(tikv: bool, n: u64) {
    let s = storage_of(tikv, &chunk_dir(), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no storage: {}", e));
    let at = |k: u64| 1000 + 3 * k;
    let read = |have: u64, a: u64, b: u64| {
        let want: Vec<(u64, u64)> = (0..have).filter(|k| at(*k) >= a && at(*k) <= b).map(|k| (at(k), (k as f64).to_bits())).collect();
        let got = s.read(7, a, b).unwrap_or_else(|e| panic!("reading {}..{} of {} samples failed: {}", a, b, have, e));
        if got != want {
            let k = got.iter().zip(&want).take_while(|(g, w)| g == w).count();
            panic!("of {} samples, {}..{} reads {} instead of {}, and differs at number {}", have, a, b, got.len(), want.len(), k)
        }
    };
    for k in 0..n {
        s.put(7, at(k), k as f64).unwrap_or_else(|e| panic!("write {} failed: {}", k + 1, e));
        if (k + 2) & k < 2 || k % 500 == 0 {
            read(k + 1, 0, u64::MAX);
            read(k + 1, at(k / 2), at(k));
        }
    }
    for k in (0..n).step_by(7) {
        read(n, at(k), at(k));
        read(n, at(k) + 1, at(n / 2 + k / 2));
        read(n, at(k / 2) - 1, at(k) + 1);
        read(n, at(k), at(n / 2 + k / 2) - 1);
    }
    mc::outcome(format!("{} samples", n));
}

/// Series with consecutive ids, and ids at the edges of every width.
fn ids(tikv: bool, n: u64) {
    let s = storage_of(tikv, &chunk_dir(), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no storage: {}", e));
    let mut ids: Vec<u64> = (1..=n).collect();
    for b in 10..64 {
        ids.extend([(1u64 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    let mut p = 1000u64;
    while p < u64::MAX / 10 {
        ids.extend([p * 10 - 1, p * 10]);
        p *= 10;
    }
    ids.push(u64::MAX);
    ids.sort();
    ids.dedup();
    if mc::choose(2) == 1 {
        ids.reverse();
    }
    let mut have: BTreeMap<u64, u64> = BTreeMap::new();
    for (k, id) in ids.iter().enumerate() {
        s.put(*id, k as u64, *id as f64).unwrap_or_else(|e| panic!("writing series {} failed: {}", id, e));
        have.insert(*id, k as u64);
        for x in [*id, id - 1, id.wrapping_add(1), id / 10, id / 256, id.wrapping_mul(256), id.swap_bytes(), *ids.first().unwrap()] {
            let want: Vec<(u64, u64)> = have.get(&x).map(|t| (*t, (x as f64).to_bits())).into_iter().collect();
            let got = s.read(x, 0, u64::MAX).unwrap_or_else(|e| panic!("reading series {} failed: {}", x, e));
            if got != want {
                panic!("with {} series, the last being {}, series {} reads {:x?} instead of {:x?}", k + 1, id, x, got, want)
            }
        }
    }
    for (x, t) in &have {
        if s.read(*x, 0, u64::MAX) != Ok(vec![(*t, (*x as f64).to_bits())]) {
            panic!("with {} series, series {} does not read as written", have.len(), x)
        }
    }
    mc::outcome(format!("{} series", have.len()));
}

pub fn storages(r: &mut Report) {
    let (n, m, l) = (r.pick(600, 2000), r.pick(1200, 5000), r.pick(4500, 12_000));
    let mut scs = vec![];
    for tikv in [false, true] {
        scs.push(Scenario::new(format!("many-samples/{}", side(tikv)), cfg(), move || samples(tikv, n)));
        scs.push(Scenario::new(format!("many-series/{}", side(tikv)), cfg(), move || ids(tikv, m)));
        scs.push(Scenario::new(format!("long-series/{}", side(tikv)), cfg(), move || long_series(tikv, l)));
    }
    r.explore(scs);
}

// ---- an index ----

fn owned(l: &[(String, String)]) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())
}

fn select(x: &dyn AnyIndexer, have: &[(u64, Vec<(String, String)>)], sel: &[(String, String)]) {
    let want: Vec<u64> = have.iter().filter(|h| sel.iter().all(|l| h.1.contains(l))).map(|h| h.0).collect();
    let mut got = x.with(owned(sel)).unwrap_or_else(|e| panic!("with {} series, selecting {:?} failed: {}", have.len(), sel, e));
    got.sort();
    if got != want {
        panic!("with {} series, {:?} selects {} series instead of {}: {:?}", have.len(), sel, got.len(), want.len(), got)
    }
    let mut meta: Vec<(u64, Set)> = x.meta(owned(sel)).unwrap_or_else(|e| panic!("with {} series, selecting {:?} failed: {}", have.len(), sel, e)).iter().map(|(i, l)| (*i, set_of(l))).collect();
    meta.sort();
    let want: Vec<(u64, Set)> = have.iter().filter(|h| sel.iter().all(|l| h.1.contains(l))).map(|h| (h.0, h.1.iter().cloned().collect())).collect();
    if meta != want {
        panic!("with {} series, {:?} selects other labels than those registered", have.len(), sel)
    }
}

/// Series that share labels, one by one.
/// With `far`, questions are only asked around powers of two and round numbers.
fn postings(tikv: bool, n: u64, far: bool) {
    let first = if far { 1 } else { [1u64, 90, 65_400, u32::MAX as u64 - 100][mc::choose(4)] };
    let edges: Vec<u64> = (8..20).map(|e| 1u64 << e).chain((1..=20).map(|k| k * 1000)).collect();
    let x = indexer_of(tikv, &chunk_dir(), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no index: {}", e));
    let l = |k: &str, v: String| (k.to_string(), v);
    let mut have = vec![];
    for k in 0..n {
        let ls = vec![l("all", "x".into()), l("i", k.to_string()), l("m", (k % 3).to_string()), l("p", (k * k % 7).to_string()), l("q", (k / 16).to_string())];
        x.create(owned(&ls), first + k).unwrap_or_else(|e| panic!("indexing series {} failed: {}", k + 1, e));
        have.push((first + k, ls.clone()));
        if far && k + 1 != n && !edges.iter().any(|e| k + 2 >= *e && k <= *e) {
            continue;
        }
        select(&*x, &have, &ls[..1]);
        select(&*x, &have, &ls[2..4]);
        select(&*x, &have, &ls[..4]);
        select(&*x, &have, &[ls[0].clone(), ls[4].clone()]);
        select(&*x, &have, &[ls[2].clone(), l("p", "1".into()), ls[0].clone(), l("q", "0".into())]);
        for j in [k, k / 2, 0] {
            let h = &have[j as usize];
            let got = x.exact(owned(&h.1)).unwrap_or_else(|e| panic!("looking up {:?} failed: {}", h.1, e));
            if got != Some(h.0) {
                panic!("with {} series, the one with {:?} is {:?} instead of {}", k + 1, h.1, got, h.0)
            }
        }
    }
    mc::outcome(format!("{} series from {}", n, first));
}

/// Series with one label, with two, and so on; selected by all of them, and by all but one.
fn wide(tikv: bool, n: usize) {
    let x = indexer_of(tikv, &chunk_dir(), &PD, &ChunkOpts::default()).unwrap_or_else(|e| panic!("no index: {}", e));
    let all: Vec<(String, String)> = (0..n).map(|k| (format!("l{}", k), format!("v{}", k % 5))).collect();
    let mut have = vec![];
    for k in 1..=n {
        let ls = all[..k].to_vec();
        let mut given = ls.clone();
        if k % 2 == 0 {
            given.reverse();
        }
        x.create(owned(&given), k as u64).unwrap_or_else(|e| panic!("indexing a series of {} labels failed: {}", k, e));
        have.push((k as u64, ls.clone()));
        select(&*x, &have, &ls);
        select(&*x, &have, &ls[k / 2..]);
        if k > 1 {
            let mut sel = ls.clone();
            sel.remove(k / 2);
            sel.reverse();
            select(&*x, &have, &sel);
            let got = x.exact(owned(&sel)).unwrap_or_else(|e| panic!("a lookup failed: {}", e));
            let want = have.iter().find(|h| h.1.len() == k - 1 && h.1.iter().all(|l| sel.contains(l))).map(|h| h.0);
            if got != want {
                panic!("the series with {} of {} labels is {:?} instead of {:?}", k - 1, k, got, want)
            }
        }
        for j in [k, (k + 1) / 2] {
            let h = &have[j - 1];
            let got = x.exact(owned(&h.1)).unwrap_or_else(|e| panic!("a lookup failed: {}", e));
            if got != Some(h.0) {
                panic!("the series with {} labels is {:?} instead of {}", j, got, h.0)
            }
        }
    }
    mc::outcome(format!("{} labels", n));
}

pub fn indexes(r: &mut Report) {
    let (n, m, far) = (r.pick(300, 700), r.pick(40, 80), r.pick(10_100, 20_100));
    let mut scs = vec![];
    for tikv in [false, true] {
        scs.push(Scenario::new(format!("many-series/{}", side(tikv)), cfg(), move || postings(tikv, n, false)));
        scs.push(Scenario::new(format!("very-many-series/{}", side(tikv)), cfg(), move || postings(tikv, far, true)));
        scs.push(Scenario::new(format!("many-labels/{}", side(tikv)), cfg(), move || wide(tikv, m)));
    }
    r.explore(scs);
}

// ---- a database ----

fn alive<T>(e: End<T>) -> T {
    match e {
        End::Done(x) => x,
        End::Crashed => panic!("ENGINE: crash without a crash point"),
    }
}

/// Series one by one, of one chunk; those of the last chunk are there again in this one.
fn db_series(kind: Kind, n: u64) {
    let mut rig = Rig::new(kind);
    alive(mc::session(|| {
        let db = rig.open();
        for chunk in 0..2 {
            for k in 0..n {
                let (i, g) = (k.to_string(), (k % 5).to_string());
                let l = [("a", "1"), ("g", g.as_str()), ("i", i.as_str())];
                let w = rig.window();
                let mut given = l;
                given.rotate_left(((k + chunk) % 3) as usize);
                rig.put(&*db, &given, w.0 + 10 + k % 3);
                let when = format!("with {} series in chunk {}", k + 1, chunk + 1);
                ask(&*db, &rig.hist, &l, (0, u64::MAX), rig.t0, &when);
                ask(&*db, &rig.hist, &l[..1], (w.0, w.1), rig.t0, &when);
                ask(&*db, &rig.hist, &l[..2], (0, w.1), rig.t0, &when);
                ask(&*db, &rig.hist, &[("i", "0")], (0, u64::MAX), rig.t0, &when);
            }
            mc::sleep_ms(CHUNK + 1);
        }
        ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, "at the end");
    }));
    mc::outcome(format!("{} series", n));
}

/// Batches of one sample, of two, and so on, in time order or against it.
fn db_batches(kind: Kind, n: u64) {
    let mut rig = Rig::new(kind);
    let turned = !kind.tikv_storage && mc::choose(2) == 1;
    alive(mc::session(|| {
        let db = rig.open();
        let w = rig.window();
        let mut t = w.0;
        for k in 1..=n {
            if t + k > w.1 {
                break;
            }
            let mut ts: Vec<u64> = (0..k).map(|j| t + j).collect();
            t += k;
            if turned {
                ts.reverse();
            }
            rig.put_many(&*db, &[("a", "1"), ("b", "1")], &ts);
            let when = format!("after a batch of {}", k);
            ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, &when);
            ask(&*db, &rig.hist, &[("b", "1")], (t - k, t - 1), rig.t0, &when);
            ask(&*db, &rig.hist, &[("a", "1")], (t - k / 2 - 1, t), rig.t0, &when);
        }
    }));
    mc::outcome(format!("batches up to {}{}", n, if turned { ", turned" } else { "" }));
}

/// Batches with as many samples as a round number, or one more or less, each of a series of its own.
fn db_large_batches(kind: Kind, most: u64) {
    let mut rig = Rig::new(kind);
    rig.chunk = 100_000;
    alive(mc::session(|| {
        let db = rig.open();
        let w = rig.window();
        for n in [100u64, 128, 200, 255, 256, 257, 300, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4096, 4097, 5000, 8193, 10_000, 10_001] {
            if n > most {
                break;
            }
            let c = n.to_string();
            // some of them before the window, some after it
            let ts: Vec<u64> = (0..n).map(|k| if k % 97 == 50 { w.1 + k } else if k % 89 == 3 { w.0 - 1 } else { w.0 + 3 * k }).collect();
            rig.put_many(&*db, &[("a", "1"), ("c", &c)], &ts);
            let when = format!("after a batch of {}", n);
            for (a, b) in [(0, u64::MAX), (w.0 + 3 * (n / 2), u64::MAX), (0, w.0 + 3 * (n / 2)), (w.0 + 3 * n - 6, w.1)] {
                ask(&*db, &rig.hist, &[("c", &c)], (a, b), rig.t0, &when);
            }
        }
        ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, "after all batches");
    }));
    mc::outcome(format!("batches up to {}", most));
}

/// Chunks one by one, each with samples of some series.
fn db_chunks(kind: Kind, n: u64, restart: bool) {
    let mut rig = Rig::new(kind);
    let mut k = 0;
    let mut made: Vec<(u64, u64)> = vec![];
    while k < n {
        let go_on = alive(mc::session(|| {
            let db = rig.open();
            loop {
                let when = format!("in chunk {}{}", k + 1, if restart { ", after a restart in each" } else { "" });
                ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, &when);
                let w = rig.window();
                made.push(w);
                // the order of labels is not always the same
                let l = [("a", "1"), ("b", "1"), ("a", "1")];
                rig.put(&*db, &l[k as usize % 2..][..2], w.0 + 20);
                rig.put(&*db, &l[(k as usize + 1) % 2..][..2], w.0 + 21);
                if k % 2 == 0 {
                    rig.put(&*db, &[("a", "1"), ("b", "2")], w.1);
                }
                if k % 3 == 0 {
                    rig.put(&*db, &[("a", "1"), ("c", &k.to_string())], w.1 - 1);
                }
                for (a, b) in [(0, u64::MAX), (w.0, w.1), (0, w.0), (w.0, u64::MAX), (made[made.len() / 2].0, w.0 - 1), (made[made.len() / 2].1, made[made.len() / 2].1), (made[0].0, made[0].1)] {
                    ask(&*db, &rig.hist, &[("a", "1")], (a, b), rig.t0, &when);
                    ask(&*db, &rig.hist, &[("b", "2")], (a, b), rig.t0, &when);
                }
                k += 1;
                let there = windows(&rig.dir);
                made.dedup();
                if made.iter().any(|w| !there.contains(w)) {
                    panic!("{}: the chunks are {:?}, where there were {:?}", when, there, made)
                }
                if k == n {
                    return false;
                }
                if restart {
                    mc::sleep_ms(1200);
                    return true;
                }
                mc::sleep_ms(CHUNK + 1);
                if windows(&rig.dir).len() != there.len() + 1 {
                    panic!("{}: the roll-over made {} chunks", when, windows(&rig.dir).len() - there.len())
                }
            }
        }));
        sled::after_crash();
        if go_on {
            // the window is over when it starts again, or is not
            mc::sleep_ms(if k % 4 == 3 { 7 } else { CHUNK + 7 });
        }
    }
    mc::outcome(format!("{} chunks", n));
}

/// More chunks than one byte can number, each with a sample or two of a series that all have, and one of its own.
fn db_long_life(kind: Kind, n: u64, restart: bool) {
    let mut rig = Rig::new(kind);
    alive(mc::session(|| {
        let db = rig.open();
        for k in 0..n {
            let w = rig.window();
            rig.put(&*db, &[("a", "1"), ("b", "1")], w.0 + 1);
            if k % 16 == 0 {
                rig.put(&*db, &[("a", "1"), ("c", &k.to_string())], w.1);
            }
            if (k + 2) & k < 2 || k % 100 == 99 {
                let when = format!("with {} chunks", k + 1);
                for (a, b) in [(0, u64::MAX), (w.0, u64::MAX), (0, rig.t0 + CHUNK), (rig.t0 + 2, w.0)] {
                    ask(&*db, &rig.hist, &[("a", "1")], (a, b), rig.t0, &when);
                }
            }
            if restart && k + 2 == n {
                drop(db);
                mc::sleep_ms(1200);
                return;
            }
            mc::sleep_ms(CHUNK + 1);
        }
        let when = format!("after {} chunks", n);
        ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, &when);
        ask(&*db, &rig.hist, &[("c", "0")], (0, u64::MAX), rig.t0, &when);
    }));
    if restart {
        sled::after_crash();
        alive(mc::session(|| {
            let db = rig.open();
            let when = format!("started on {} chunks", n);
            for s in [[("a", "1")], [("c", "0")], [("c", "16")]] {
                ask(&*db, &rig.hist, &s, (0, u64::MAX), rig.t0, &when);
            }
            for n in 1..4 {
                mc::sleep_ms(CHUNK + 1);
                ask(&*db, &rig.hist, &[("a", "1")], (0, u64::MAX), rig.t0, &format!("{}, after roll-over {}", when, n));
            }
        }));
    }
    mc::outcome(format!("{} chunks", n));
}

const CLOCKS: [u64; 8] = [
    mc::START_MS,
    255,
    (1 << 32) - 3,
    999_999_999_995,
    (1 << 40) - 6,
    (1 << 41) - 3,
    9_999_999_999_990,
    (1 << 43) + 1,
];
const LENGTHS: [u64; 20] = [
    1, 2, 3, 255, 256, 257, 999, 1000, 1001, 4095, 65_535, 65_536, 7_200_000, 86_400_000, (1 << 31) - 1, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 100_000_000_000,
];

/// Windows of every length, at every time of day: writes at both ends, inside and outside, in three windows of
/// two lives.
fn db_windows(kind: Kind) {
    mc::set_clock_ms(CLOCKS[mc::choose(CLOCKS.len())]);
    let mut rig = Rig::new(kind);
    rig.chunk = LENGTHS[mc::choose(LENGTHS.len())];
    let len = rig.chunk;
    let from = mc::now_ms();
    for life in 0..2 {
        alive(mc::session(|| {
            let db = rig.open();
            for n in 0..2 {
                let (w, now) = (rig.window(), mc::now_ms());
                let when = format!("life {}, window {}..{} of {} ms, at {}", life + 1, w.0, w.1, len, now);
                if w.1 - w.0 != len || w.0 > now + 1 || w.1 + 1 < now {
                    panic!("{}: it is not open now, or not as long as asked for", when)
                }
                for t in [w.0, w.0 + len / 2, w.1] {
                    for s in [0, 2] {
                        rig.put(&*db, SERIES[s], t);
                    }
                }
                rig.put(&*db, SERIES[1], w.1 + 1);
                rig.put(&*db, SERIES[1], w.0 - 1);
                rig.put(&*db, SERIES[1], w.1);
                rig.check(&*db, &when);
                if n == 0 {
                    mc::sleep_ms(len + 1);
                }
            }
            mc::outcome(format!("{} ms, {} after the start", len, mc::now_ms() - from));
            if len >= 255 {
                mc::sleep_ms(1200);
                let w = rig.window();
                rig.check(&*db, &format!("before the end of life {}, in {}..{}", life + 1, w.0, w.1));
            }
        }));
        if len < 255 {
            return;
        }
        sled::after_crash();
        mc::sleep_ms(7);
    }
}

pub fn databases(r: &mut Report) {
    let (n, m, c, l, b) = (r.pick(140, 400), r.pick(140, 140), r.pick(50, 150), r.pick(300, 1100), r.pick(2100, 10_001));
    let mut scs = crate::chunks::crowds(r);
    for kind in KINDS {
        scs.push(Scenario::new(format!("windows/{}", kind.name()), cfg(), move || db_windows(kind)));
        scs.push(Scenario::new(format!("many-series/{}", kind.name()), cfg(), move || db_series(kind, n)));
        scs.push(Scenario::new(format!("many-samples/{}", kind.name()), cfg(), move || db_batches(kind, m)));
        scs.push(Scenario::new(format!("many-chunks/{}", kind.name()), cfg(), move || db_chunks(kind, c, false)));
        scs.push(Scenario::new(format!("very-many-chunks/{}", kind.name()), cfg(), move || db_long_life(kind, l, false)));
        scs.push(Scenario::new(format!("large-batches/{}", kind.name()), cfg(), move || db_large_batches(kind, b)));
    }
    r.explore(scs);
}

pub fn restarts(r: &mut Report) {
    let (c, l) = (r.pick(50, 150), r.pick(300, 1100));
    let mut scs = vec![];
    for kind in KINDS {
        scs.push(Scenario::new(format!("many-restarts/{}", kind.name()), cfg(), move || db_chunks(kind, c, true)));
        scs.push(Scenario::new(format!("very-many-chunks/{}", kind.name()), cfg(), move || db_long_life(kind, l, true)));
    }
    r.explore(scs);
}

// ---- chunks that share a TiKV cluster ----

/// Chunks one by one, each with the same series id and the same instants.
fn neighbours(n: u64) {
    let dir = chunk_dir();
    let mut made = vec![];
    for k in 0..n {
        let o = ChunkOpts::default();
        let s = storage_of(true, &dir, &PD, &o).unwrap_or_else(|e| panic!("{}", e));
        let x = indexer_of(true, &dir, &PD, &o).unwrap_or_else(|e| panic!("{}", e));
        if s.read(1, 0, u64::MAX) != Ok(vec![]) || x.with(labels(&[("a", "1")])).map_or(false, |v| !v.is_empty()) {
            panic!("chunk {} has something before anything is written", k + 1)
        }
        s.put(1, 10, k as f64).unwrap_or_else(|e| panic!("{}", e));
        let c = k.to_string();
        x.create(labels(&[("a", "1"), ("c", &c)]), 1).unwrap_or_else(|e| panic!("{}", e));
        made.push((o, s, x, c));
    }
    for (k, (_, s, x, c)) in made.iter().enumerate() {
        let got = s.read(1, 0, u64::MAX);
        if got != Ok(vec![(10, (k as f64).to_bits())]) {
            panic!("of {} chunks, number {} reads {:x?}", n, k + 1, got)
        }
        let got: Vec<Set> = x.meta(labels(&[("a", "1")])).unwrap_or_else(|e| panic!("{}", e)).iter().map(|m| set_of(&m.1)).collect();
        if got != [set(&[("a", "1"), ("c", c)])] {
            panic!("of {} chunks, number {} has the series {:?}", n, k + 1, got)
        }
    }
    mc::outcome(format!("{} chunks", n));
}

pub fn clusters(r: &mut Report) {
    let n = r.pick(1500, 6000);
    r.explore(vec![Scenario::new(format!("many-chunks/{}", n), cfg(), move || neighbours(n))]);
}
