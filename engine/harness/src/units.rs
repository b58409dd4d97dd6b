//! Checks of the parts that are functions of their input: compaction, id lists, names, equality, options.
use crate::core::{fingerprint, seqs, Report};
use clap::{App, Arg};
use monolith::compaction::{CompactType, Compactor, Decompactor};
use monolith::label::{Label, Labels};
use monolith::option::{DbOpts, ServerOpts};
use monolith::time_point::TimePoint;
use monolith::utils::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::time::Duration;
use vstd::mc::{self, Cfg, Scenario};

// ---- C01, C02: compaction ----

fn bits(v: &[TimePoint]) -> Vec<(u64, u64)> {
    v.iter().map(|p| (p.timestamp, p.value.to_bits())).collect()
}

fn points(p: &[(u64, u64)]) -> Vec<TimePoint> {
    p.iter().map(|(t, v)| TimePoint::new(*t, f64::from_bits(*v))).collect()
}

fn kind(gorilla: bool) -> CompactType {
    if gorilla {
        CompactType::Gorilla
    } else {
        CompactType::None
    }
}

fn unpack(gorilla: bool, b: Vec<u8>) -> Result<Vec<(u64, u64)>, String> {
    let mut d = Decompactor::from(kind(gorilla), b).map_err(|e| format!("does not open: {}", e))?;
    let one = d.decompact().map_err(|e| format!("does not decompact: {}", e))?;
    let two = d.decompact().map_err(|e| format!("does not decompact a second time: {}", e))?;
    if bits(&one) != bits(&two) {
        return Err(format!("decompacts to {:x?} first, then to {:x?}", bits(&one), bits(&two)));
    }
    Ok(bits(&one))
}

fn show_points(p: &[(u64, u64)]) -> String {
    let v: Vec<String> = p.iter().map(|(t, v)| format!("{}:{:016x}", t, v)).collect();
    format!("[{}]", v.join(" "))
}

fn round_trip(gorilla: bool, p: &[(u64, u64)]) -> Result<(u64, u64), String> {
    let at_once = Compactor::new(kind(gorilla)).compact_vec(points(p));
    let got = unpack(gorilla, at_once.clone()).map_err(|e| format!("{} {}", show_points(p), e))?;
    if got != p {
        return Err(format!("{} comes back as {}", show_points(p), show_points(&got)));
    }
    let mut c = Compactor::new(kind(gorilla));
    for (k, x) in points(p).iter().enumerate() {
        c.compact(x);
        // what there is so far can be read at any time
        if p.len() <= 4 || k + 1 == p.len() {
            let got = unpack(gorilla, c.get_bytes_vec()).map_err(|e| format!("{}, sample by sample, {}", show_points(&p[..=k]), e))?;
            if got != &p[..=k] {
                return Err(format!("{}, compacted sample by sample, comes back as {}", show_points(&p[..=k]), show_points(&got)));
            }
        }
    }
    if p.len() > 1 {
        let cut = p.len() / 2;
        let mut c = Compactor::new(kind(gorilla));
        c.compact_vec(points(&p[..cut]));
        let got = unpack(gorilla, c.compact_vec(points(&p[cut..]))).map_err(|e| format!("{}, in two parts, {}", show_points(p), e))?;
        if got != p {
            return Err(format!("{}, compacted in two parts, comes back as {}", show_points(p), show_points(&got)));
        }
    }
    Ok((fingerprint(&at_once), p.len() as u64))
}

/// Values that differ from their predecessor in bits `l` to `63 - t` (all of them, or just both ends).
fn mask(l: u32, t: u32, ends: bool) -> u64 {
    let full = (u64::MAX >> l) & (u64::MAX << t);
    if ends {
        (1u64 << (63 - l)) | (1u64 << t)
    } else {
        full
    }
}

fn all_masks() -> Vec<(u32, u32)> {
    let mut v = vec![];
    for l in 0..64 {
        for t in 0..64 - l {
            v.push((l, t));
        }
    }
    v
}

const STEPS: [i64; 37] = [
    0, 1, -1, 2, 62, 63, 64, 65, -62, -63, -64, -65, 126, 127, 128, 129, -127, -128, -129, 255, 256, 32766, 32767, 32768, 32769, -32767, -32768, -32769, 2147483646,
    2147483647, 2147483648, 2147483649, -2147483647, -2147483648, -2147483649, 4294967296, 1 << 45,
];
const FIRST: [i64; 6] = [0, 1, 15_000, 1 << 33, 1 << 47, 1 << 61];
const START: [u64; 5] = [0, 1, 255, 1_700_000_000_000, 1 << 61];

fn timeline(start: u64, first: i64, dods: &[i64]) -> Option<Vec<u64>> {
    let mut v = vec![start];
    let mut d = first;
    let mut t = start;
    for k in 0..=dods.len() {
        if k > 0 {
            d = d.checked_add(dods[k - 1])?;
        }
        if d < 0 {
            return None;
        }
        t = t.checked_add(d as u64).filter(|t| *t < 1 << 63)?;
        v.push(t);
    }
    Some(v)
}

const SHAPES: [u64; 3] = [0, 0x3ff8_0000_0000_0000, 0xfff0_dead_beef_0001];

pub fn c01(r: &mut Report) {
    r.rule("Gorilla blocks, compacted at once, sample by sample (read back after each) and in two parts, have to decompact to the same samples bit for bit. Cases: all sequences of second differences of time over the boundaries of every encoded width, from several starts and first steps; all pairs of (leading, trailing) zero counts of successive value differences, full and at both ends only; products of both at every bit alignment. Also every count of samples up to a bound.");
    r.assume("timestamps are in time order and below 2^63");
    let n = r.pick(3, 4);
    r.enumerate(
        "time-steps",
        (1..=n).flat_map(|len| seqs(STEPS.len(), len)).flat_map(move |s| {
            let few = s.len() >= 3;
            (0..FIRST.len() * START.len()).filter(|k| !few || *k % 7 == 3).map(|k| (s.clone(), k % FIRST.len(), k / FIRST.len())).collect::<Vec<_>>()
        }),
        |(s, f, b)| {
            let d: Vec<i64> = s.iter().map(|i| STEPS[*i]).collect();
            match timeline(START[*b], FIRST[*f], &d) {
                None => Ok((0, 0)),
                Some(t) => round_trip(true, &t.iter().enumerate().map(|(k, t)| (*t, SHAPES[k % 2])).collect::<Vec<_>>()),
            }
        },
    );
    // bits in every place of a second difference, up to the widest there is
    let n = 1usize << r.pick(5, 6);
    r.enumerate("wide-time-steps", (0..63u32).flat_map(move |w| (0..n * 4).map(move |k| (w, k / 4, k % 4))), |(w, k, order)| {
        // the top bits of the difference, the same at its bottom, and a pattern in between
        let top = 1u64 << w;
        let low = (*k as u64) & (top - 1);
        let high = ((*k as u64).reverse_bits() >> (63 - w)) & (top - 1);
        let x = (top | high | low | if k & 1 == 1 { 0x2492_4924_9249_2492 & (top - 1) } else { 0 }) as i64;
        let (start, first, d) = match order {
            0 => (5, 1, vec![x, 0, 1]),
            1 => (5, 1, vec![x, -x, 1]),
            2 => (5, x, vec![-x, 3, 0]),
            _ => (5, x, vec![-x + 1, x - 1]),
        };
        match timeline(start, first, &d) {
            None => match timeline(start, first, &d[..1]) {
                None => Ok((0, 0)),
                Some(t) => round_trip(true, &t.iter().enumerate().map(|(k, t)| (*t, SHAPES[k % 2])).collect::<Vec<_>>()),
            },
            Some(t) => round_trip(true, &t.iter().enumerate().map(|(k, t)| (*t, SHAPES[k % 2])).collect::<Vec<_>>()),
        }
    });
    let masks = all_masks();
    let second: Vec<(u32, u32)> = if r.thorough {
        masks.clone()
    } else {
        let e = [0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63];
        masks.iter().copied().filter(|(l, t)| e.contains(l) && e.contains(t)).collect()
    };
    let m = &masks;
    let s2 = &second;
    r.enumerate(
        "value-differences",
        (0..masks.len() * second.len()).flat_map(move |i| (0..2).map(move |e| (m[i % m.len()], s2[i / m.len()], e))),
        |((l1, t1), (l2, t2), ends)| {
            let a = SHAPES[((l1 + l2) % 3) as usize];
            let b = a ^ mask(*l1, *t1, *ends == 1);
            let c = b ^ mask(*l2, *t2, *ends == 0);
            // the third difference may use either of the earlier widths
            let d = c ^ mask(*l1, *t1, false);
            round_trip(true, &[(5, a), (10, b), (15, c), (21, c), (26, d)])
        },
    );
    // every alignment: few steps, few differences, longer sequences
    let steps = [0i64, 1, 200, 40_000, 1 << 33];
    let diffs = [(64u32, 0u32), (0, 0), (0, 63), (63, 0), (31, 8), (32, 16), (12, 40)];
    let pairs = steps.len() * diffs.len();
    let n = r.pick(3, 4);
    r.enumerate("alignments", (0..=n).flat_map(|len| seqs(pairs, len)), move |s| {
        let mut p = vec![(1_700_000_000_000, SHAPES[1])];
        let (mut t, mut d, mut v) = (p[0].0, 15_000u64, SHAPES[1]);
        for i in s {
            let (l, tr) = diffs[i / steps.len()];
            d = d.wrapping_add(steps[i % steps.len()] as u64);
            t += d;
            if l < 64 {
                v ^= mask(l, tr, true);
            }
            p.push((t, v));
        }
        round_trip(true, &p)
    });
    // special values next to each other
    let special = [0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::from_bits(0xfff8_0000_0000_0001), 0.1, 1e9, 123456.789];
    let n = r.pick(4, 5);
    r.enumerate("special-values", (0..=n).flat_map(|len| seqs(special.len(), len)), move |s| {
        round_trip(true, &s.iter().enumerate().map(|(k, i)| (1_000 * k as u64, special[*i].to_bits())).collect::<Vec<_>>())
    });
    r.enumerate("many-samples", (0..=r.pick(300usize, 2000)).chain([4095, 4096, 4097]).flat_map(|n| (0..3usize).map(move |k| (n, k))), |(n, k)| {
        let mut t = 5u64;
        let p: Vec<(u64, u64)> = (0..*n)
            .map(|i| {
                t += [15_000, i as u64 * 37 % 5000, (i as u64 % 9) << (i % 20)][*k];
                (t, [SHAPES[1], (i as f64 / 3.0).to_bits(), SHAPES[i % 3] ^ i as u64][*k])
            })
            .collect();
        round_trip(true, &p)
    });
    // long series: runs of one pattern, then of another
    let len = r.pick(70, 200);
    r.enumerate("long-runs", (0..pairs * pairs).flat_map(move |i| (1..4).map(move |k| (i % pairs, i / pairs, k))), move |(a, b, k)| {
        let mut p = vec![(3, SHAPES[1])];
        let (mut t, mut d, mut v) = (3, 7u64, SHAPES[1]);
        for n in 0..len {
            let i = if (n / k) % 2 == 0 { *a } else { *b };
            let (l, tr) = diffs[i / steps.len()];
            let step = steps[i % steps.len()] as u64;
            // to and fro
            d = if n % 2 == 0 { d + step } else { d - step.min(d) };
            t += d;
            if l < 64 {
                v ^= mask(l, tr, n % 3 == 0);
            }
            p.push((t, v));
        }
        round_trip(true, &p)
    });
}

pub fn c02(r: &mut Report) {
    r.rule("All sequences of samples over boundary timestamps and values, stored without compaction at once, sample by sample and in two parts; and every block of either kind, and every short block with every type tag, opened as the other kind. Also every count of samples up to a bound.");
    let t = [0u64, 1, 255, 256, 1_700_000_000_000, u64::MAX - 1, u64::MAX];
    let v = [0.0f64, -0.0, 1.5, -1e300, f64::NAN, f64::INFINITY, 5e-324];
    let n = r.pick(3, 4);
    let base = t.len() * v.len();
    r.enumerate("uncompacted", (0..=n).flat_map(|len| seqs(base, len)), |s| {
        round_trip(false, &s.iter().map(|i| (t[i % t.len()], v[i / t.len()].to_bits())).collect::<Vec<_>>())
    });
    r.enumerate("many-samples", (0..=r.pick(300usize, 2000)).chain([4095, 4096, 4097, 8193]), |n| {
        round_trip(false, &(0..*n).map(|i| (t[i % 5] / 2 + i as u64 * 257, v[i * 5 % v.len()].to_bits() ^ (i as u64 / 7))).collect::<Vec<_>>())
    });
    r.enumerate("tags", (0..=r.pick(2usize, 3)).flat_map(|len| seqs(16, len)).flat_map(|b| (0..=255u8).map(move |tag| (b.clone(), tag)).collect::<Vec<_>>()), |(b, tag)| {
        let mut block: Vec<u8> = b.iter().map(|x| (x * 17) as u8).collect();
        block.push(*tag);
        for g in [true, false] {
            let want = if g { 1 } else { 3 };
            let open = Decompactor::from(kind(g), block.clone());
            if open.is_ok() != (*tag == want) {
                return Err(format!("the block {:x?} is {} as kind {}", block, if open.is_ok() { "taken" } else { "refused" }, want));
            }
            if Decompactor::from(kind(g), vec![]).is_ok() {
                return Err("a block of no bytes is taken".into());
            }
        }
        Ok((fingerprint(&block), 1))
    });
    r.enumerate("other-kind", (0..=2).flat_map(|len| seqs(base, len)), |s| {
        let mut p: Vec<_> = s.iter().map(|i| (t[i % t.len()] / 2, v[i / t.len()].to_bits())).collect();
        p.sort();
        for g in [true, false] {
            if let Ok(x) = unpack(!g, Compactor::new(kind(g)).compact_vec(points(&p))) {
                return Err(format!("{} of one kind is read as {} by the other", show_points(&p), show_points(&x)));
            }
        }
        Ok((fingerprint(&p), 1))
    });
}

// ---- I02: intersection of id lists ----

fn check_intersection(lists: &[Vec<u64>]) -> Result<u64, String> {
    let want: Vec<u64> = match lists.first() {
        None => vec![],
        Some(f) => f.iter().copied().filter(|x| lists.iter().all(|l| l.contains(x))).collect(),
    };
    match intersect_time_series_id_vec(lists.to_vec()) {
        Ok(got) if got == want => Ok(fingerprint(&(lists.len(), got))),
        Ok(got) => Err(format!("the intersection of {:?} is {:?} instead of {:?}", lists, got, want)),
        Err(e) => Err(format!("the intersection of {:?} failed: {}", lists, e)),
    }
}

fn subset(ids: &[u64], s: usize) -> Vec<u64> {
    ids.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, x)| *x).collect()
}

pub fn i02(r: &mut Report) {
    r.rule("All families of subsets of a universe of ids (in any order, with repeats), compared with membership in all of them; lists of every pair of lengths with ids in common at every distance; runs of ids of all lengths that matter, in and across one another, also with ids missing at every place; and every schedule, within the preemption bound, of the worker threads for four to eight lists. Also every number of lists up to a bound.");
    let four = [0u64, 1, 256, u64::MAX];
    r.enumerate("subsets-of-4", (0..=3).flat_map(|len| seqs(16, len)), |f| {
        check_intersection(&f.iter().map(|s| subset(&four, *s)).collect::<Vec<_>>()).map(|p| (p, f.len() as u64))
    });
    // four lists and more are divided among threads
    let mut families = vec![(4usize, 3usize), (5, 2), (6, 2)];
    if r.thorough {
        families.extend([(4, 4), (5, 3), (7, 2)]);
    }
    r.explore(families.into_iter().map(|(lists, ids)| {
        Scenario::new(format!("families/{}-lists-of-{}-ids", lists, ids), Cfg { sched_from_start: false, ..Cfg::default() }, move || {
            let f: Vec<Vec<u64>> = (0..lists).map(|_| subset(&[0u64, 1, 256, u64::MAX], mc::choose(1 << ids))).collect();
            match check_intersection(&f) {
                Ok(p) => mc::outcome(format!("{:x}", p)),
                Err(e) => panic!("{}", e),
            }
        })
    }).collect());
    let n = r.pick(12u64, 24);
    r.enumerate("lengths", (0..n * n * 6).map(move |i| (i % n, i / n % n, 1 + i / n / n)), |(a, b, step)| {
        let x: Vec<u64> = (0..*a).map(|i| i * 2).collect();
        let y: Vec<u64> = (0..*b).map(|i| i * step).collect();
        check_intersection(&[x.clone(), y.clone()])?;
        check_intersection(&[y.clone(), x.clone(), x.clone()])?;
        check_intersection(&[x, y]).map(|p| (p, 3))
    });
    // one or two ids of one list among a run of ids of the other, that starts and ends anywhere and lacks one or none
    let n = r.pick(18u64, 26);
    r.enumerate("gaps", (0..n).flat_map(move |a| (a..n).map(move |b| (a, b))), move |(a, b)| {
        let x: Vec<u64> = if a == b { vec![*a] } else { vec![*a, *b] };
        let mut all = 0u64;
        let mut steps = 0;
        for s in 0..n {
            for e in s..=n {
                for gap in s..=e {
                    let y: Vec<u64> = (s..e).filter(|i| *i != gap).collect();
                    all ^= check_intersection(&[x.clone(), y.clone()])?;
                    all ^= check_intersection(&[y, x.clone()])?.rotate_left(1);
                    steps += 2;
                }
            }
        }
        Ok((all ^ fingerprint(&x), steps))
    });
    let n = r.pick(160u64, 400);
    r.enumerate("long-gaps", (1..=n).chain((9..16).flat_map(|b| ((1 << b) - 2)..=((1 << b) + 2))), |len| {
        let y: Vec<u64> = (0..*len).map(|i| i * 2).collect();
        let mut steps = 0;
        let stride = if *len > 1000 { len / 37 } else { 1 };
        for k in (0..len * 2).rev().step_by(stride as usize) {
            for x in [vec![k], vec![k / 3, k], vec![k, len * 2 - 2, len * 2 + 5]] {
                if x.windows(2).all(|w| w[0] < w[1]) {
                    let want: Vec<u64> = x.iter().copied().filter(|v| v % 2 == 0 && *v < len * 2).collect();
                    for f in [vec![x.clone(), y.clone()], vec![y.clone(), x.clone()]] {
                        steps += 1;
                        match intersect_time_series_id_vec(f) {
                            Ok(got) if got == want => {}
                            got => return Err(format!("{:?} and all even ids below {} have {:?} in common, not {:?}", x, len * 2, got.map_err(|e| e.to_string()), want)),
                        }
                    }
                }
            }
        }
        Ok((fingerprint(len), steps))
    });
    // runs of ids at equal distances, of all lengths that matter, one in, at, across and outside another
    let lens: Vec<u64> = vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 600];
    let runs: Vec<(u64, u64, u64)> = [0u64, 1, 5, 64, 130, u64::MAX - 600].iter().flat_map(|s| lens.iter().flat_map(move |l| [1u64, 2, 3].into_iter().map(move |d| (*s, d, *l)))).filter(|(s, d, l)| s.checked_add(d * (l - 1)).is_some()).collect();
    let runs = &runs;
    r.enumerate("runs", 0..runs.len(), |i| {
        let make = |(s, d, l): (u64, u64, u64)| -> Vec<u64> { (0..l).map(|k| s + k * d).collect() };
        let x = make(runs[*i]);
        let mut all = 0u64;
        for (s, d, l) in runs.iter() {
            let y = make((*s, *d, *l));
            let want: Vec<u64> = x.iter().copied().filter(|v| *v >= *s && (*v - *s) % *d == 0 && (*v - *s) / *d < *l).collect();
            match intersect_time_series_id_vec(vec![x.clone(), y]) {
                Ok(got) if got == want => all = all.rotate_left(1) ^ got.len() as u64,
                got => return Err(format!("{:?} (first, distance, number) and {:?} have {:?} in common instead of {:?}", runs[*i], (s, d, l), got.map_err(|e| e.to_string()), want)),
            }
        }
        Ok((all, runs.len() as u64))
    });
    // a run that lacks one or two ids, or has one more behind or before it, and runs beside it
    let lens: Vec<u64> = vec![4, 9, 17, 33, 65, 66, 129, 257, 520];
    r.enumerate("runs-with-gaps", lens.iter().flat_map(|l| (0..*l).flat_map(move |g| [1u64, 2, *l].iter().map(move |d| (*l, g, *d)).collect::<Vec<_>>())), |(l, gap, other)| {
        // without the id at the gap, and either without another or with one far from the rest
        let x: Vec<u64> = (0..*l).filter(|i| i != gap && (*other == *l || *i != gap + other)).map(|i| 100 + i).chain(if *other == *l { Some(100 + 3 * l) } else { None }).collect();
        let mut all = 0u64;
        let y1: Vec<u64> = (0..*l).map(|i| 100 + i).collect();
        let y2: Vec<u64> = (0..4 * *l).map(|i| 90 + i).collect();
        let y3: Vec<u64> = (0..*l).map(|i| 100 + gap + i).collect();
        let y4: Vec<u64> = vec![100 + gap];
        let x1: Vec<u64> = y1.iter().cloned().filter(|i| *i != 100 + gap).collect();
        for (x, y) in [(&x, &y1), (&x, &y2), (&x, &y3), (&x, &y4), (&x1, &y1), (&x1, &y2), (&x1, &y3), (&x1, &y4), (&x1, &x)] {
            let has: std::collections::HashSet<u64> = y.iter().cloned().collect();
            let want: Vec<u64> = x.iter().cloned().filter(|v| has.contains(v)).collect();
            for lists in [vec![x.clone(), y.clone()], vec![y.clone(), x.clone()]] {
                match intersect_time_series_id_vec(lists) {
                    Ok(got) if got == want => all = all.rotate_left(1) ^ got.len() as u64,
                    got => return Err(format!("{:?} and {:?} have {:?} in common instead of {:?}", x, y, got.map_err(|e| e.to_string()), want)),
                }
            }
        }
        Ok((all, 18))
    });
    // many lists, and long ones; the schedule is that of the real threads here
    let (n, m) = (r.pick(24u64, 48), [10u64, 100, 1000]);
    r.enumerate("many-lists", (1..=n).flat_map(|l| m.iter().map(move |len| (l, *len))).chain((1..=8).map(|l| (l, 20_000))), |(l, len)| {
        // list k has every id but those that are k modulo the number of lists and one
        let f: Vec<Vec<u64>> = (0..*l).map(|k| (0..*len).filter(|i| i % (l + 1) != k).map(|i| i * 3).collect()).collect();
        check_intersection(&f).map(|p| (p, *l))
    });
    let mut scs = vec![];
    for lists in [4usize, 5, 6, 7, 8, 9] {
        let p = if lists <= 5 { r.pick(5, 8) } else if lists <= 7 { r.pick(4, 6) } else { r.pick(2, 3) };
        scs.push(Scenario::new(format!("schedules/{}-lists", lists), Cfg { preemptions: p, delays: lists > 5, ..Cfg::default() }, move || {
            // each list lacks one id of its own
            let f: Vec<Vec<u64>> = (0..lists).map(|k| (0..lists as u64 + 2).filter(|i| *i != k as u64).collect()).collect();
            match check_intersection(&f) {
                Ok(p) => mc::outcome(format!("{:x}", p)),
                Err(e) => panic!("{}", e),
            }
        }));
    }
    r.explore(scs);
    // the callers of slow workers
    let stall = r.pick(3_000_000, 20_000_000);
    r.explore([4usize, 5].iter().map(|lists| {
        let lists = *lists;
        Scenario::new(format!("stalled-workers/{}-lists", lists), Cfg { preemptions: 1, stall, ..Cfg::default() }, move || {
            let f: Vec<Vec<u64>> = (0..lists).map(|k| (0..lists as u64 + 2).filter(|i| *i != k as u64).collect()).collect();
            match check_intersection(&f) {
                Ok(p) => mc::outcome(format!("{:x}", p)),
                Err(e) => panic!("{}", e),
            }
        })
    }).collect());
}

// ---- V01: equality, order, hash ----

fn label_lists(max: usize) -> Vec<Vec<(usize, usize)>> {
    let mut v = vec![];
    for len in 0..=max {
        for s in seqs(9, len) {
            v.push(s.iter().map(|i| (i % 3, i / 3)).collect());
        }
    }
    v
}

const NAMES: [&str; 3] = ["", "a", "b"];
const VALUES: [&str; 3] = ["", "1", "a"];

fn make(l: &[(usize, usize)]) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(NAMES[*k], VALUES[*v])).collect())
}

pub fn v01(r: &mut Report) {
    r.rule("All pairs of label lists up to three labels over three names and three values (empty ones included): equal if they are the same list, unequal if they hold different labels, symmetric, and equal ones hash alike; all triples of the short ones for transitivity; all pairs of texts that are easily taken for one another (case, blanks, Unicode forms, numbers, lengths) as names and values; all pairs of samples over boundary timestamps and values for equality and order; all sorts. Also every number of labels up to a bound.");
    let all = label_lists(3);
    let made: Vec<Labels> = all.iter().map(|l| make(l)).collect();
    let n = all.len();
    let (all, made) = (&all, &made);
    r.enumerate("label-sets", (0..n * n).map(|i| (i % n, i / n)), |(i, j)| {
        let (a, b) = (&made[*i], &made[*j]);
        let eq = a == b;
        if eq != (b == a) || eq == (a != b) {
            return Err(format!("{:?} and {:?}: equality is not symmetric", all[*i], all[*j]));
        }
        if i == j && !eq {
            return Err(format!("{:?} differs from itself", all[*i]));
        }
        let (mut x, mut y) = (all[*i].clone(), all[*j].clone());
        x.sort();
        y.sort();
        if eq && x != y {
            return Err(format!("{:?} equals {:?}", all[*i], all[*j]));
        }
        if eq && (fingerprint(a) != fingerprint(b) || a.get_hash() != b.get_hash()) {
            return Err(format!("{:?} equals {:?}, but has another hash", all[*i], all[*j]));
        }
        if i == j {
            let mut s = a.clone();
            s.sort();
            let got: Vec<(&String, &String)> = s.vec().iter().map(|l| (l.key(), l.value())).collect();
            let mut have: Vec<(&str, &str)> = got.iter().map(|l| (l.0.as_str(), l.1.as_str())).collect();
            let mut want: Vec<(&str, &str)> = all[*i].iter().map(|l| (NAMES[l.0], VALUES[l.1])).collect();
            if have.windows(2).any(|w| w[0].0 > w[1].0) {
                return Err(format!("{:?} sorts to {:?}", all[*i], got));
            }
            have.sort();
            want.sort();
            if have != want || s.len() != all[*i].len() {
                return Err(format!("{:?} sorts to {:?}", all[*i], got));
            }
        }
        Ok(((*i as u64) << 32 | eq as u64, 1))
    });
    let m = label_lists(2).len();
    r.enumerate("label-sets-transitive", (0..m * m).map(|i| (i % m, i / m)), |(i, j)| {
        if made[*i] == made[*j] {
            for k in 0..m {
                if made[*j] == made[k] && made[*i] != made[k] {
                    return Err(format!("{:?} equals {:?}, that equals {:?}, but the first differs from the last", all[*i], all[*j], all[k]));
                }
            }
        }
        Ok((*i as u64, m as u64))
    });
    r.enumerate("labels", (0..81usize).map(|i| (i % 9, i / 9)), |(i, j)| {
        let l = |i: usize| Label::from_key_value(NAMES[i % 3], VALUES[i / 3]);
        let (a, b) = (l(*i), l(*j));
        if (a == b) != (i == j) {
            return Err(format!("{:?}: wrong equality", (i, j)));
        }
        if a.cmp(&b) != b.cmp(&a).reverse() || a.partial_cmp(&b) != Some(a.cmp(&b)) {
            return Err(format!("{:?}: the order is not antisymmetric", (i, j)));
        }
        if NAMES[i % 3] != NAMES[j % 3] && a.cmp(&b) != NAMES[i % 3].cmp(NAMES[j % 3]) {
            return Err(format!("{:?}: the order is not that of the names", (i, j)));
        }
        if a == b && fingerprint(&a) != fingerprint(&b) {
            return Err(format!("{:?}: equal, but hashed differently", (i, j)));
        }
        Ok(((*i * 9 + *j) as u64, 1))
    });
    // long lists, of which one differs in one place, or lacks one, or is turned
    r.enumerate("many-labels", (1..=r.pick(40usize, 80)).flat_map(|n| (0..n).map(move |i| (n, i))), |(n, i)| {
        let l = |f: &dyn Fn(usize) -> (String, String)| Labels::from_vec((0..*n).map(|k| f(k)).map(|(k, v)| Label::from_key_value(&k, &v)).collect());
        let base = |k: usize| (format!("n{:02}", k), format!("v{}", k % 4));
        let a = l(&base);
        if a != l(&base) || fingerprint(&a) != fingerprint(&l(&base)) || a.get_hash() != l(&base).get_hash() {
            return Err(format!("{} labels: a copy differs", n));
        }
        for (what, b) in [
            ("value", l(&|k| if k == *i { (base(k).0, "other".into()) } else { base(k) })),
            ("name", l(&|k| if k == *i { ("other".into(), base(k).1) } else { base(k) })),
        ] {
            if a == b || b == a {
                return Err(format!("{} labels: those of which number {} has another {} are equal", n, i, what));
            }
        }
        let mut v: Vec<(String, String)> = (0..*n).map(|k| base(k)).collect();
        v.remove(*i);
        let b = Labels::from_vec(v.iter().map(|(k, v)| Label::from_key_value(k, v)).collect());
        if a == b || b == a {
            return Err(format!("{} labels equal those without number {}", n, i));
        }
        let mut t = l(&|k| base((k * 7 + i) % n));
        if (0..*n).map(|k| (k * 7 + i) % n).collect::<std::collections::BTreeSet<_>>().len() == *n {
            t.sort();
            if t != a {
                return Err(format!("{} labels in another order do not sort to the same", n));
            }
        }
        Ok(((n * 100 + i) as u64, 4))
    });
    let odd = crate::core::lookalikes();
    let n = odd.len();
    let odd = &odd;
    r.enumerate("lookalikes", (0..n * n).map(|i| (i % n, i / n)), |(i, j)| {
        let (a, b) = (&odd[*i], &odd[*j]);
        // as names, as values, and of sets of labels
        let pairs = [
            (Label::from_key_value(a, "1"), Label::from_key_value(b, "1")),
            (Label::from_key_value("n", a), Label::from_key_value("n", b)),
            (Label::new(a.clone(), b.clone()), Label::new(b.clone(), a.clone())),
        ];
        for (k, (x, y)) in pairs.iter().enumerate() {
            let lists = (Labels::from_vec(vec![x.clone()]), Labels::from_vec(vec![y.clone()]));
            if (x == y) != (a == b) || (lists.0 == lists.1) != (a == b) || (y == x) != (x == y) {
                return Err(format!("{:?} and {:?}: wrong equality of labels", a, b));
            }
            if x == y && (fingerprint(x) != fingerprint(y) || lists.0.get_hash() != lists.1.get_hash()) {
                return Err(format!("{:?}: equal, but hashed differently", a));
            }
            if k != 1 && (x.cmp(y) != a.cmp(b) || x.partial_cmp(y) != Some(a.cmp(b))) {
                return Err(format!("{:?} and {:?}: labels are not ordered by their names", a, b));
            }
            if x.key() != [a, "n", a][k] || x.value() != ["1", a, b][k] || x.clone().key_value() != (x.key().clone(), x.value().clone()) {
                return Err(format!("{:?}: a label loses its name or value", a));
            }
        }
        Ok(((*i * n + *j) as u64, 3))
    });
    let t = [0u64, 1, 255, 256, u64::MAX / 2, u64::MAX - 1, u64::MAX];
    let v = [0.0, -0.0, 1.0, 1.0 + 1e-12, 1.001, -1.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::from_bits(0x7ff8_0000_0000_0007), 5e-324, 1e-3, 0.1 + 0.2, 0.3, 12.0, 13.0, 1e6, 1e6 + 0.001, 1e9, 1e9 + 1.0, 1e9 - 1.0, 1e15, 1e15 + 1.0, -1e9, 9007199254740992.0, 9007199254740991.0, 1e18, 1.001e18, f64::MAX, f64::MIN_POSITIVE, 1e-9, 2e-9];
    let n = t.len() * v.len();
    r.enumerate("samples", (0..n * n).map(|i| (i % n, i / n)), |(i, j)| {
        let (a, b) = (TimePoint::new(t[i % t.len()], v[i / t.len()]), TimePoint::new(t[j % t.len()], v[j / t.len()]));
        let eq = a == b;
        if eq != (b == a) || eq == (a != b) {
            return Err(format!("{:?} and {:?}: equality is not symmetric", a, b));
        }
        if a.timestamp == b.timestamp && a.value.to_bits() == b.value.to_bits() && !eq {
            return Err(format!("{:?} differs from {:?}", a, b));
        }
        let near = (a.value - b.value).abs() < 1e-6_f64.max(1e-12 * a.value.abs().min(b.value.abs())) || a.value.to_bits() == b.value.to_bits() || (a.value.is_nan() && b.value.is_nan());
        if eq && (a.timestamp != b.timestamp || !near) {
            return Err(format!("{:?} equals {:?}", a, b));
        }
        if a.cmp(&b) != a.timestamp.cmp(&b.timestamp) || a.partial_cmp(&b) != Some(a.cmp(&b)) {
            return Err(format!("{:?} and {:?} are ordered {:?}", a, b, a.cmp(&b)));
        }
        Ok(((*i as u64) << 8 | eq as u64, 1))
    });
}

// ---- N01: names of chunk directories (foreign entries: see dbchecks) ----

pub fn names(r: &mut Report) {
    let mut l: Vec<u64> = vec![0, 1_700_000_000_000, 1_700_000_012_000, 1671234234, 14423141234];
    for k in 0..64 {
        l.push(1 << k);
        l.push((1u64 << k).wrapping_sub(1));
        l.push((1u64 << k) + 1);
        if k % 4 == 0 {
            l.push(0xa << (k.min(60)));
        }
    }
    l.push(u64::MAX);
    l.sort();
    l.dedup();
    let n = l.len();
    let l = &l;
    let seen = std::sync::Mutex::new(HashMap::new());
    r.enumerate("names", (0..n * n).map(|i| (l[i % n], l[i / n])), |(a, b)| {
        let name = encode_chunk_dir(*a, *b);
        if name.is_empty() || name.contains('/') || name.starts_with('.') {
            return Err(format!("the window {}..{} is named {:?}", a, b, name));
        }
        match decode_chunk_dir(name.clone()) {
            Ok(w) if w == (*a, *b) => {}
            other => return Err(format!("the window {}..{} is named {}, which is read as {:?}", a, b, name, other.map_err(|e| e.to_string()))),
        }
        if let Some(other) = seen.lock().unwrap().insert(name.clone(), (*a, *b)) {
            return Err(format!("the windows {:?} and {:?} are both named {}", other, (a, b), name));
        }
        Ok((fingerprint(&name), 1))
    });
    let alphabet = ["0", "1", "f", "F", "g", "-", "+", ".", "x", "_", " ", "é", "\n", "/", "tmp"];
    let n = r.pick(3, 4);
    r.enumerate("other-names", (0..=n).flat_map(|len| seqs(alphabet.len(), len)), |s| {
        name_of_a_chunk(&s.iter().map(|i| alphabet[*i]).collect::<String>())
    });
    r.enumerate("long-names", (1..40usize).flat_map(|n| ["0", "1", "f", "F", "10", "+1"].into_iter().map(move |c| c.repeat(n))), |name| name_of_a_chunk(name));
    // names of chunks with something before, after, or instead of a character
    let near: Vec<String> = [(0, 0), (0, 10), (1, 0), (1_700_000_000_000, 1_700_000_012_000), (u64::MAX, u64::MAX)]
        .iter()
        .flat_map(|(a, b)| {
            let n = encode_chunk_dir(*a, *b);
            let mut v = vec![n.to_uppercase()];
            for c in ["0", "1", "f", "F", "g", "-", "+", ".", "x", "_", " ", "0x", "é", "\n", "\0"] {
                for i in 0..=n.len() {
                    v.push(format!("{}{}{}", &n[..i], c, &n[i..]));
                    if i < n.len() {
                        v.push(format!("{}{}{}", &n[..i], c, &n[i + 1..]));
                    }
                }
            }
            v
        })
        .collect();
    r.enumerate("near-names", near.into_iter(), |name| name_of_a_chunk(name));
}

/// A name is a chunk's if it is what a window is named, and only then.
fn name_of_a_chunk(name: &str) -> Result<(u64, u64), String> {
    // a number in lower-case hexadecimal, without anything before it
    let number = !name.is_empty() && name.len() <= 32 && name.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c)) && (name == "0" || !name.starts_with('0'));
    match (decode_chunk_dir(name.to_string()), number) {
        (Ok((a, b)), true) if u128::from_str_radix(name, 16) == Ok((a as u128) << 64 | b as u128) => Ok((fingerprint(&name), 1)),
        (Err(_), false) => Ok((1, 1)),
        (Ok(w), _) => Err(format!("{:?} is taken for the window {:?}", name, w)),
        (Err(e), true) => Err(format!("{:?} is refused: {}", name, e)),
    }
}

// ---- O01: options ----

fn app() -> App<'static, 'static> {
    use monolith::*;
    App::new("monolith").args(&[
        Arg::with_name(STORAGE_ARG).short("s").long(STORAGE_ARG).default_value(SLED_BACKEND),
        Arg::with_name(INDEXER_ARG).short("i").long(INDEXER_ARG).default_value(SLED_BACKEND),
        Arg::with_name(FILE_DIR_ARG).short("dir").long(FILE_DIR_ARG).default_value("/nowhere"),
        Arg::with_name(CHUNK_SIZE).long(CHUNK_SIZE).default_value(DEFAULT_CHUNK_SIZE),
        Arg::with_name(PORT).long(PORT).default_value("9001"),
        Arg::with_name(WRITE_PATH).long(WRITE_PATH).default_value(DEFAULT_WRITE_PATH),
        Arg::with_name(READ_PATH).long(READ_PATH).default_value(DEFAULT_READ_PATH),
        Arg::with_name(WORKER_NUM).long(WORKER_NUM).default_value("8"),
        Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG).takes_value(true),
    ])
}

pub fn o01(r: &mut Report) {
    r.rule("All combinations of boundary values (and of leaving the option out) of every option, parsed as the server's main does; the options have to come out as given, or as the default, or be refused when a number is none or the port is out of range. The server program started with an orthogonal array (thorough: all combinations) of options, in every choice of backends: what it serves, where, and what it keeps. TiKV configuration files over a lattice of spellings, against the cluster that writes go to.");
    let sizes: [(Option<&str>, Option<u64>); 9] = [
        (None, Some(12000)),
        (Some("1"), Some(1)),
        (Some("12001"), Some(12001)),
        (Some("18446744073709551615"), Some(u64::MAX)),
        (Some("18446744073709551616"), None),
        (Some("-1"), None),
        (Some("1.5"), None),
        (Some("abc"), None),
        (Some(" 5"), None),
    ];
    let ports: [(Option<&str>, Option<i32>); 16] = [
        (None, Some(9001)),
        (Some("1024"), Some(1024)),
        (Some("1025"), Some(1025)),
        (Some("1023"), None),
        (Some("65535"), Some(65535)),
        (Some("65534"), Some(65534)),
        (Some("65536"), None),
        (Some("0"), None),
        (Some("1"), None),
        (Some("80"), None),
        (Some("-9001"), None),
        (Some("2147483647"), None),
        (Some("2147483648"), None),
        (Some("74537"), None),
        (Some("port"), None),
        (Some("9001 "), None),
    ];
    let workers: [(Option<&str>, Option<usize>); 7] = [(None, Some(8)), (Some("1"), Some(1)), (Some("64"), Some(64)), (Some("-1"), None), (Some("many"), None), (Some("1.0"), None), (Some("99999999999999999999"), None)];
    let backends = [None, Some("sled"), Some("tikv"), Some("other")];
    let dirs = [None, Some("/data/x"), Some("rel/y"), Some("with space,="), Some("/ends in a blank "), Some(" /begins with one"), Some("/Data/X.Y"), Some("~/x"), Some("../x"), Some("$HOME/%20x"), Some("\"/quoted\""), Some("/d\u{e4}ta/\u{65e5}"), Some("/")];
    let tikv = [None, Some("/etc/tikv.json"), Some("t"), Some(" a/../B "), Some("~/t.yaml"), Some("/t\u{e4}.YML")];
    let paths = [None, Some("/r"), Some("/read/deep?x=1"), Some("/Read"), Some("/read/"), Some("//read"), Some("read"), Some("/"), Some("/a%20b "), Some("/\u{e4}")];
    r.enumerate(
        "database-options",
        (0..backends.len() * backends.len() * dirs.len() * sizes.len() * tikv.len()).map(|mut i| {
            let mut next = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            [next(backends.len()), next(backends.len()), next(dirs.len()), next(sizes.len()), next(tikv.len())]
        }),
        |k| {
            let mut a = vec!["monolith".to_string()];
            let mut add = |n: &str, v: Option<&str>| {
                if let Some(v) = v {
                    a.push(format!("--{}={}", n, v));
                }
            };
            add("storage", backends[k[0]]);
            add("indexer", backends[k[1]]);
            add("file_dir", dirs[k[2]]);
            add("chunk_size", sizes[k[3]].0);
            add("tikv_config", tikv[k[4]]);
            let m = app().get_matches_from_safe(&a).map_err(|e| format!("{:?}: {}", a, e))?;
            match (DbOpts::get_config(&m), sizes[k[3]].1) {
                (Err(_), None) => Ok((1, 1)),
                (Ok(o), Some(s)) => {
                    let ok = o.storage == backends[k[0]].unwrap_or("sled")
                        && o.indexer == backends[k[1]].unwrap_or("sled")
                        && o.base_dir == PathBuf::from(dirs[k[2]].unwrap_or("/nowhere"))
                        && o.chunk_size == Duration::from_secs(s)
                        && o.tikv_config == tikv[k[4]].map(PathBuf::from);
                    if ok {
                        Ok((fingerprint(&a), 1))
                    } else {
                        Err(format!("{:?} is taken as storage {}, indexer {}, directory {:?}, chunks of {:?}, TiKV {:?}", a, o.storage, o.indexer, o.base_dir, o.chunk_size, o.tikv_config))
                    }
                }
                (Ok(o), None) => Err(format!("{:?} is accepted, with chunks of {:?}", a, o.chunk_size)),
                (Err(e), Some(_)) => Err(format!("{:?} is refused: {}", a, e)),
            }
        },
    );
    r.enumerate(
        "server-options",
        (0..ports.len() * workers.len() * paths.len() * paths.len()).map(|mut i| {
            let mut next = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            [next(ports.len()), next(workers.len()), next(paths.len()), next(paths.len())]
        }),
        |k| {
            let mut a = vec!["monolith".to_string()];
            let mut add = |n: &str, v: Option<&str>| {
                if let Some(v) = v {
                    a.push(format!("--{}={}", n, v));
                }
            };
            add("port", ports[k[0]].0);
            add("worker_num", workers[k[1]].0);
            add("read_path", paths[k[2]]);
            add("write_path", paths[k[3]].map(|p| if p == "/r" { "/w" } else { p }));
            let w = paths[k[3]].map(|p| if p == "/r" { "/w" } else { p }).unwrap_or("/write");
            let m = app().get_matches_from_safe(&a).map_err(|e| format!("{:?}: {}", a, e))?;
            let got = ServerOpts::get_config(&m);
            match (got, ports[k[0]].1, workers[k[1]].1) {
                (Ok(o), Some(p), Some(n)) => {
                    let text = format!("{}", o);
                    if o.port != p || o.worker_num != n || o.read_path != paths[k[2]].unwrap_or("/read") || o.write_path != w {
                        return Err(format!("{:?} is taken as {}", a, text));
                    }
                    if !text.contains(&p.to_string()) {
                        return Err(format!("the options {:?} are shown as {}", a, text));
                    }
                    Ok((fingerprint(&a), 1))
                }
                (Err(e), Some(_), Some(_)) => Err(format!("{:?} is refused: {}", a, e)),
                (Ok(o), _, _) => Err(format!("{:?} is accepted as {}", a, o)),
                (Err(_), _, _) => Ok((1, 1)),
            }
        },
    );
    r.once("defaults", || {
        let (d, s) = (DbOpts::default(), ServerOpts::default());
        if d.storage != "sled" || d.indexer != "sled" || d.chunk_size != Duration::from_secs(12000) || d.tikv_config.is_some() {
            return Err("the default database options are not those of the command line".into());
        }
        if s.port != 9001 || s.worker_num != 8 || s.read_path != "/read" || s.write_path != "/write" {
            return Err(format!("the default server options are not those of the command line: {}", s));
        }
        Ok(())
    });
    crate::server::tikv_config(r);
    crate::server::program_options(r);
}
