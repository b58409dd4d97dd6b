mod chunks;
mod core;
mod db;
mod dbchecks;
mod growth;
mod oracle;
mod server;
mod stores;
mod units;
mod wal;
mod wire;

use crate::core::Report;
use std::path::PathBuf;
use vstd::mc::{self, Choice};

type Check = (&'static str, fn(&mut Report));

const CHECKS: &[Check] = &[
    ("D01", dbchecks::d01),
    ("D02", dbchecks::d02),
    ("D03", chunks::d03),
    ("D04", dbchecks::d04),
    ("D05", dbchecks::d05),
    ("D06", dbchecks::d06),
    ("D07", dbchecks::d07),
    ("D08", chunks::d08),
    ("S01", stores::s01),
    ("S02", stores::s02),
    ("S03", stores::s03),
    ("I01", stores::i01),
    ("I02", units::i02),
    ("I03", stores::i03),
    ("I04", stores::i04),
    ("C01", units::c01),
    ("C02", units::c02),
    ("N01", dbchecks::n01),
    ("W01", wal::w01),
    ("V01", units::v01),
    ("O01", units::o01),
    ("H01", server::h01),
    ("H02", server::h02),
    ("H03", server::h03),
];

fn usage() -> ! {
    eprintln!("harness check <ID> [quick|thorough] | replay <file> | list");
    std::process::exit(2)
}

/// Runs the check in a process of its own: code under test that aborts, overflows its stack or eats
/// all memory takes that process down, which is a violation, not a failure to answer.
fn supervise(id: &str, verif: &PathBuf) -> i32 {
    let _ = std::fs::remove_file(verif.join(format!("build/progress-{}", id)));
    let me = std::env::current_exe().expect("who am I");
    let mut child = std::process::Command::new(me)
        .args(std::env::args_os().skip(1))
        .env("VERIF_CHILD", "1")
        .spawn()
        .expect("cannot start the check");
    let pid = child.id();
    let st = child.wait().expect("cannot wait for the check");
    let _ = std::fs::remove_dir_all(mc::scratch_base().join(format!("monolith-mc-{}", pid)));
    match st.code() {
        Some(c) if c != 101 => c,
        _ => {
            let what = std::fs::read_to_string(verif.join(format!("build/progress-{}", id))).unwrap_or_default();
            if what.is_empty() {
                println!("ENGINE ERROR: the check ended with {}", st);
                return 2;
            }
            crate::core::lost(id, &what, &format!("the process was taken down ({}) while exploring this part", st), vec![]);
            1
        }
    }
}

fn main() {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for c in CHECKS {
                println!("{}", c.0)
            }
        }
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let Some(c) = CHECKS.iter().find(|c| c.0 == id) else { usage() };
            std::env::set_var("VERIF_TIER", if tier == "thorough" { "thorough" } else { "quick" });
            if std::env::var_os("VERIF_CHILD").is_none() {
                std::process::exit(supervise(&id, &verif))
            }
            let mut r = Report::new(&id, tier == "thorough");
            let what = id.clone();
            mc::on_stuck(move |sc, why, t| {
                crate::core::lost(&what, sc, &why, t.iter().map(|c| (c.n, c.c)).collect());
                mc::cleanup();
            });
            (c.1)(&mut r);
            mc::cleanup();
            std::process::exit(r.finish(&verif))
        }
        Some("replay") => {
            let f = a.get(2).cloned().unwrap_or_else(|| usage());
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("cannot read the replay")).expect("not a replay");
            let id = v["property"].as_str().expect("property").to_string();
            let Some(c) = CHECKS.iter().find(|c| c.0 == id) else { usage() };
            let mut r = Report::new(&id, v["tier"] == "thorough");
            let choices = v["choices"]
                .as_array()
                .expect("choices")
                .iter()
                .map(|p| Choice {
                    n: p[0].as_u64().unwrap() as u32,
                    c: p[1].as_u64().unwrap() as u32,
                })
                .collect();
            r.only = Some((v["scenario"].as_str().expect("scenario").to_string(), choices));
            (c.1)(&mut r);
            mc::cleanup();
            if !r.replayed {
                eprintln!("no such scenario");
                std::process::exit(2)
            }
            std::process::exit(if r.found.is_empty() { 0 } else { 1 })
        }
        _ => usage(),
    }
}
