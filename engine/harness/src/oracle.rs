//! What a database has to answer: a map from label set to a map from timestamp to value.
use monolith::label::{Label, Labels};
use monolith::time_point::TimePoint;
use std::collections::{BTreeMap, BTreeSet};

pub type Set = BTreeSet<(String, String)>;
/// label set -> points in time order, values as bits
pub type Answer = BTreeMap<Set, Vec<(u64, u64)>>;

pub fn labels(l: &[(&str, &str)]) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())
}

pub fn set(l: &[(&str, &str)]) -> Set {
    l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

pub fn set_of(l: &Labels) -> Set {
    l.vec().iter().map(|l| (l.key().clone(), l.value().clone())).collect()
}

#[derive(Default, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub series: BTreeMap<Set, BTreeMap<u64, u64>>,
}

impl Spec {
    pub fn put(&mut self, s: &Set, t: u64, v: f64) {
        self.series.entry(s.clone()).or_default().insert(t, v.to_bits());
    }
    pub fn last(&self, s: &Set) -> Option<u64> {
        self.series.get(s).and_then(|m| m.keys().next_back().copied())
    }
    pub fn query(&self, sel: &Set, a: u64, b: u64) -> Answer {
        let mut r = Answer::new();
        for (s, pts) in &self.series {
            if !sel.is_subset(s) || a > b {
                continue;
            }
            let v: Vec<(u64, u64)> = pts.range(a..=b).map(|(t, v)| (*t, *v)).collect();
            if !v.is_empty() {
                r.insert(s.clone(), v);
            }
        }
        r
    }
}

/// The answer as a map; says what is malformed about it.
pub fn normal(r: &[(Labels, Vec<TimePoint>)]) -> Result<Answer, String> {
    let mut a = Answer::new();
    for (l, pts) in r {
        let s = set_of(l);
        if s.len() != l.len() {
            return Err(format!("a label occurs twice in {:?}", show(l)));
        }
        let p: Vec<(u64, u64)> = pts.iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
        if a.insert(s, p).is_some() {
            return Err(format!("series {} occurs twice in one answer", show(l)));
        }
    }
    Ok(a)
}

pub fn show(l: &Labels) -> String {
    show_set(&set_of(l))
}

pub fn show_set(s: &Set) -> String {
    let v: Vec<String> = s.iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
    format!("{{{}}}", v.join(","))
}

pub fn show_answer(a: &Answer, base: u64) -> String {
    let mut v = vec![];
    for (s, p) in a {
        let p: Vec<String> = p
            .iter()
            .map(|(t, v)| format!("{}:{}", rel(*t, base), f64::from_bits(*v)))
            .collect();
        v.push(format!("{} [{}]", show_set(s), p.join(" ")));
    }
    if v.is_empty() {
        "nothing".into()
    } else {
        v.join(", ")
    }
}

pub fn rel(t: u64, base: u64) -> String {
    if base != 0 && t >= base.saturating_sub(1_000_000) && t < base.saturating_add(1_000_000) {
        format!("T{:+}", t as i64 - base as i64)
    } else {
        t.to_string()
    }
}
