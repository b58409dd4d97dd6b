//! Runs the explorations of a check, and reports what they covered.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vstd::mc::{self, Choice, Scenario};

pub struct Found {
    pub scenario: String,
    pub why: String,
    pub notes: Vec<String>,
    pub choices: Vec<(u32, u32)>,
}

pub struct Report {
    pub id: String,
    pub thorough: bool,
    pub workers: usize,
    deadline: Instant,
    t0: Instant,
    states: u64,
    transitions: u64,
    executions: u64,
    distinct: HashSet<u64>,
    capped: Vec<String>,
    parts: Vec<Value>,
    samples: Vec<Value>,
    pub found: Vec<Found>,
    /// model traces replayed against the real component
    pub conformance: u64,
    assumptions: Vec<String>,
    rule: Vec<String>,
    /// replay: only this scenario, with these choices
    pub only: Option<(String, Vec<Choice>)>,
    pub replayed: bool,
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Report {
    pub fn new(id: &str, thorough: bool) -> Report {
        let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
        let secs = match std::env::var("VERIF_TIME").ok().and_then(|s| s.parse().ok()) {
            Some(s) => s,
            None if thorough => 780,
            None => 240,
        };
        Report {
            id: id.into(),
            thorough,
            workers,
            deadline: Instant::now() + Duration::from_secs(secs),
            t0: Instant::now(),
            states: 0,
            transitions: 0,
            executions: 0,
            distinct: HashSet::new(),
            capped: vec![],
            parts: vec![],
            samples: vec![],
            found: vec![],
            conformance: 0,
            assumptions: vec![],
            rule: vec![],
            only: None,
            replayed: false,
        }
    }

    /// quick or thorough value
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn executions(&self) -> u64 {
        self.executions
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into())
    }

    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.into())
    }

    /// Explores scenarios of the controlled scheduler completely.
    pub fn explore(&mut self, scs: Vec<Scenario>) {
        if let Some((name, choices)) = &self.only {
            for sc in &scs {
                if &sc.name == name {
                    let out = mc::run(sc.cfg, choices.clone(), true, sc.body.clone());
                    for n in &out.notes {
                        println!("  {}", n);
                    }
                    println!("  outcome: {}", out.outcome);
                    println!("  result: {}", out.failure.as_deref().unwrap_or("the property held"));
                    if let Some(why) = out.failure {
                        self.found.push(Found {
                            scenario: name.clone(),
                            why,
                            notes: out.notes,
                            choices: vec![],
                        });
                    }
                    self.replayed = true;
                }
            }
            return;
        }
        let t = Instant::now();
        progress(&self.id, &group(&scs));
        let (all, per, bad) = mc::explore(&scs, self.workers, self.deadline);
        self.states += all.states;
        self.transitions += all.transitions;
        self.executions += all.executions;
        if all.diverged > 0 {
            self.capped.push(format!("{} (the code under test is not deterministic)", group(&scs)));
        }
        for (name, s) in &per {
            if std::env::var_os("VERIF_VERBOSE").is_some() {
                println!("    {}: {} executions, {} steps, {} outcomes{}", name, s.executions, s.transitions, s.outcomes.len(), if s.capped { ", cut short" } else { "" });
            }
            for o in &s.outcomes {
                self.distinct.insert(h(&(name, o)));
            }
            if s.capped {
                self.capped.push(name.clone());
            }
            let some: Vec<&String> = s.outcomes.iter().take(2).collect();
            if self.samples.len() < 12 {
                self.samples.push(json!({"scenario": name, "executions": s.executions, "outcomes": some}));
            }
        }
        let p = json!({
            "part": group(&scs),
            "scenarios": scs.len(),
            "executions": all.executions,
            "choice_tree_nodes": all.states,
            "steps": all.transitions,
            "distinct_outcomes": per.iter().map(|p| p.1.outcomes.len()).sum::<usize>(),
            "longest_choice_sequence": all.max_choices,
            "most_threads": all.max_threads,
            "preemption_bound": scs.iter().map(|s| s.cfg.preemptions).max(),
            "fault_bound": scs.iter().map(|s| s.cfg.faults).max(),
            "crash_bound": scs.iter().map(|s| s.cfg.crashes).max(),
            "wall_s": (t.elapsed().as_millis() as f64) / 1000.0,
            "complete": !all.capped && all.diverged == 0,
            "executions_that_diverged": all.diverged,
        });
        println!("  {}", p);
        self.parts.push(p);
        for v in bad {
            self.found.push(Found {
                why: if v.reproduced {
                    v.why
                } else {
                    format!("{} (happened once; the code does not behave the same way each time)", v.why)
                },
                scenario: v.scenario,
                notes: v.notes,
                choices: v.choices.iter().map(|c| (c.n, c.c)).collect(),
            });
        }
    }

    /// Runs `f` on every case, in parallel. `Ok` carries a fingerprint of what was observed and the
    /// number of steps; `Err` says what is wrong. Panics are failures.
    pub fn enumerate<T, I, F>(&mut self, name: &str, cases: I, f: F)
    where
        T: Send + std::fmt::Debug,
        I: Iterator<Item = T> + Send,
        F: Fn(&T) -> Result<(u64, u64), String> + Sync,
    {
        if let Some((n, choices)) = &self.only {
            if n == name {
                let want = choices.first().map_or(0, |c| ((c.n as u64) << 32) | c.c as u64);
                if let Some((_, c)) = cases.enumerate().find(|(i, _)| *i as u64 == want) {
                    println!("  case {}: {:?}", want, c);
                    match mc::no_panic(|| f(&c)) {
                        Ok(Ok(_)) => println!("  result: the property held"),
                        Ok(Err(why)) | Err(why) => {
                            println!("  result: {}", why);
                            self.found.push(Found {
                                scenario: name.into(),
                                why,
                                notes: vec![],
                                choices: vec![],
                            });
                        }
                    }
                }
                self.replayed = true;
            }
            return;
        }
        mc::install_hook();
        let t = Instant::now();
        let it = Mutex::new(cases.enumerate());
        let n = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let bad: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
        let sample: Mutex<Vec<String>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        let cap = AtomicBool::new(false);
        let deadline = self.deadline;
        progress(&self.id, name);
        let busy: Vec<Mutex<Option<(u64, String, Instant)>>> = (0..self.workers).map(|_| Mutex::new(None)).collect();
        let left = AtomicU64::new(self.workers as u64);
        let id = self.id.clone();
        std::thread::scope(|s| {
            s.spawn(|| {
                while left.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for b in &busy {
                        if let Some((i, c, t)) = &*b.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(90) {
                                lost(&id, name, &format!("no end: case {} ({}) has been running for {} s", i, c, t.elapsed().as_secs()), vec![((i >> 32) as u32, *i as u32)]);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            for w in 0..self.workers {
                let (left, busy) = (&left, &busy);
                let (stop, cap, it, n, steps, seen, sample, bad, f) = (&stop, &cap, &it, &n, &steps, &seen, &sample, &bad, &f);
                s.spawn(move || {
                    struct Leave<'a>(&'a AtomicU64);
                    impl Drop for Leave<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, SeqCst);
                        }
                    }
                    let _leave = Leave(left);
                    let mut batch: Vec<(usize, T)> = Vec::with_capacity(64);
                    loop {
                        if stop.load(SeqCst) {
                            return;
                        }
                        if Instant::now() > deadline {
                            cap.store(true, SeqCst);
                            return;
                        }
                        batch.clear();
                        {
                            let mut g = it.lock().unwrap();
                            for _ in 0..64 {
                                match g.next() {
                                    Some(c) => batch.push(c),
                                    None => break,
                                }
                            }
                        }
                        if batch.is_empty() {
                            return;
                        }
                        for (i, c) in batch.iter() {
                            if stop.load(SeqCst) {
                                return;
                            }
                            *busy[w].lock().unwrap() = Some((*i as u64, format!("{:?}", c), Instant::now()));
                            let r = mc::no_panic(|| f(c));
                            *busy[w].lock().unwrap() = None;
                            n.fetch_add(1, SeqCst);
                            match r {
                                Ok(Ok((print, st))) => {
                                    steps.fetch_add(st, SeqCst);
                                    let mut s = seen[(print % 64) as usize].lock().unwrap();
                                    if s.len() < 200_000 {
                                        s.insert(print);
                                    }
                                    drop(s);
                                    if *i % 9973 == 7 {
                                        let mut s = sample.lock().unwrap();
                                        if s.len() < 2 {
                                            s.push(format!("{:?}", c));
                                        }
                                    }
                                }
                                Ok(Err(why)) | Err(why) => {
                                    let mut b = bad.lock().unwrap();
                                    b.push((*i as u64, format!("{:?}", c), why));
                                    if b.len() >= 3 {
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                        }
                    }
                });
            }
        });
        let n = n.load(SeqCst);
        let distinct: usize = seen.iter().map(|s| s.lock().unwrap().len()).sum();
        for s in seen {
            for p in s.into_inner().unwrap() {
                if self.distinct.len() < 5_000_000 {
                    self.distinct.insert(h(&(name, p)));
                }
            }
        }
        self.executions += n;
        self.states += distinct as u64;
        self.transitions += steps.load(SeqCst);
        if cap.load(SeqCst) {
            self.capped.push(name.into());
        }
        let p = json!({
            "part": name,
            "cases": n,
            "distinct_outcomes": distinct,
            "steps": steps.load(SeqCst),
            "wall_s": (t.elapsed().as_millis() as f64) / 1000.0,
            "complete": !cap.load(SeqCst),
        });
        println!("  {}", p);
        self.parts.push(p);
        for s in sample.into_inner().unwrap() {
            if self.samples.len() < 12 {
                self.samples.push(json!({"part": name, "case": s}));
            }
        }
        let mut b = bad.into_inner().unwrap();
        b.sort();
        for (i, c, why) in b {
            self.found.push(Found {
                scenario: name.into(),
                why,
                notes: vec![format!("case {}: {}", i, c)],
                choices: vec![((i >> 32) as u32, i as u32)],
            });
        }
    }

    /// A single deterministic obligation.
    pub fn once(&mut self, name: &str, f: impl Fn() -> Result<(), String> + Sync) {
        self.enumerate(name, std::iter::once(0u8), |_| f().map(|_| (0, 1)))
    }

    /// Writes the evidence, prints the verdict, and returns the exit code.
    pub fn finish(mut self, verif: &PathBuf) -> i32 {
        let known = known(verif, &self.id);
        let mut code = 0;
        let mut violations = 0;
        let mut engine = false;
        let dir = verif.join("build/replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut told = HashSet::new();
        for (n, v) in self.found.iter().enumerate() {
            if v.why.starts_with("ENGINE") {
                println!("ENGINE ERROR in {}: {}", v.scenario, v.why);
                engine = true;
                continue;
            }
            if let Some(k) = known.iter().find(|k| v.why.contains(&k.why) && v.scenario.starts_with(&k.scenario)) {
                if told.insert(k.line.clone()) {
                    println!("KNOWN-FINDING: property={} {}", self.id, k.text);
                }
                continue;
            }
            violations += 1;
            code = 1;
            let path = dir.join(format!("{}-{}.json", self.id, n));
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"},
                    "scenario": v.scenario, "choices": v.choices, "why": v.why, "notes": v.notes,
                }))
                .unwrap(),
            );
            if violations <= 4 {
                println!("--- {} in {}", self.id, v.scenario);
                for l in v.notes.iter().take(60) {
                    println!("    {}", l);
                }
                println!("    => {}", v.why);
                println!("VIOLATION property={} replay={}", self.id, path.display());
            }
        }
        if engine && code == 0 {
            code = 2;
        }
        let escapes = vstd::fs::ESCAPES.load(SeqCst);
        if self.samples.is_empty() {
            self.samples.push(json!("none"));
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.executions + self.conformance,
                "evaluations": self.executions,
                "distinct_nontrivial": self.distinct.len(),
                "rule": self.rule.join(" "),
                "exhaustive": self.capped.is_empty(),
                "cut_short": self.capped,
                "parts": self.parts,
                "environment_model_traces_replayed_on_the_real_component": self.conformance,
                "samples": self.samples,
                "refused_changes_outside_scratch": escapes,
            },
            "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_millis() as f64 / 1000.0,
            "violations": violations,
        });
        let evd = verif.join("evidence");
        let _ = std::fs::create_dir_all(&evd);
        std::fs::write(
            evd.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("cannot write the evidence");
        println!(
            "{} {}: {} executions, {} states, {} transitions, {} distinct outcomes, {} violations, {:.1} s{}",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.executions,
            self.states,
            self.transitions,
            self.distinct.len(),
            violations,
            self.t0.elapsed().as_secs_f64(),
            if self.capped.is_empty() { "" } else { " (cut short by the time limit)" },
        );
        code
    }
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// What is being explored, for the supervisor.
fn progress(id: &str, what: &str) {
    let _ = std::fs::create_dir_all(verif().join("build"));
    let _ = std::fs::write(verif().join(format!("build/progress-{}", id)), what);
}

/// Reports a violation that ends the process: an execution that never ends, or takes it down.
pub fn lost(id: &str, scenario: &str, why: &str, choices: Vec<(u32, u32)>) {
    let dir = verif().join("build/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-lost.json", id));
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "tier": tier, "scenario": scenario, "choices": choices, "why": why, "notes": []})).unwrap());
    let ev = json!({
        "property": id, "tier": if tier == "thorough" {"thorough"} else {"quick"},
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "evaluations": 1, "distinct_nontrivial": 1,
            "rule": "ended early by the violation", "exhaustive": false, "samples": [scenario]},
        "assumptions": [], "wall_s": 1.0, "violations": 1,
    });
    let evd = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let _ = std::fs::write(evd.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!("--- {} in {}", id, scenario);
    println!("    => {}", why);
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn group(scs: &[Scenario]) -> String {
    let first = scs.first().map_or("", |s| s.name.as_str());
    first.split('/').next().unwrap_or("").to_string()
}

struct Known {
    line: String,
    scenario: String,
    why: String,
    text: String,
}

/// Lines `known: property=<id> scenario=<prefix> why=<part of the message> | <text>`.
fn known(verif: &PathBuf, id: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((head, text)) = rest.split_once(" | ") else { continue };
        let Some((p, rest)) = head.split_once(" scenario=") else { continue };
        let Some((sc, why)) = rest.split_once(" why=") else { continue };
        if p == id {
            v.push(Known {
                line: l.into(),
                scenario: sc.into(),
                why: why.into(),
                text: text.into(),
            });
        }
    }
    v
}

/// All sequences of indices below `base`, of length `len` exactly.
pub fn seqs(base: usize, len: usize) -> impl Iterator<Item = Vec<usize>> + Send {
    let total = (base as u64).pow(len as u32);
    (0..total).map(move |mut i| {
        let mut v = vec![0; len];
        for x in v.iter_mut() {
            *x = (i % base as u64) as usize;
            i /= base as u64;
        }
        v
    })
}

pub fn fingerprint<T: Hash>(t: &T) -> u64 {
    h(t)
}

/// Texts that careless comparing, trimming, folding or cutting takes for one another.
pub fn lookalikes() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "A", "aa", "aA", "a ", " a", " ", "\ta", "a\t", "a\n", "\r\na", "a\0", "\0", "a\u{a0}", "\u{feff}a", "\u{e1}", "a\u{301}", "\u{c1}", "\u{ff41}", "\u{430}", "\u{df}", "ss",
        "0", "00", "-0", "1", "01", "+1", "1.0", "1e0", "\"a\"", "'a'", "a,", ",a", "a=", "=a", "%61", "a+", "a%20", "\u{fffd}", "__name__", "name", "\u{1f980}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [127usize, 128, 255, 256, 300] {
        v.push("a".repeat(n));
    }
    v.push("a".repeat(299) + "b");
    v
}
