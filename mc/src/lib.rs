pub mod alpha;
pub mod arith;
pub mod core;
pub mod cfgs;
pub mod confs;
pub mod edges;
pub mod hist;
pub mod iso;
pub mod mem;
pub mod random;
pub mod reach;
pub mod total;
pub mod ops;
pub mod oracle;
pub mod prim;
pub mod serial;
pub mod special;
pub mod text;
pub mod trans;

use crate::core::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CheckFn = fn(&Run);

fn load_known() -> Vec<Known> {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in s.lines() {
            // known: property=Cxx | <exact text the violating case contains> | <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                let f: Vec<&str> = r.splitn(3, " | ").collect();
                if f.len() == 3 {
                    v.push(Known { prop: f[0].trim().into(), pattern: f[1].into(), what: f[2].into() });
                }
            }
        }
    }
    v
}

pub fn run_main(checks: &[(&str, &'static str, CheckFn)]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mc <property> [quick|thorough] [--replay file] [--space substr]");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut filter = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--replay" => {
                i += 1;
                replay = args.get(i).cloned();
            }
            "--space" => {
                i += 1;
                filter = args.get(i).cloned();
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let (_, level, f) = match checks.iter().find(|c| c.0 == prop) {
        Some(c) => *c,
        None => {
            eprintln!("no check for {}", prop);
            std::process::exit(2);
        }
    };
    install_panic_hook();
    oracle::mpfr_init();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let mk = |only: Option<(String, u64)>| Run {
        prop: prop.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        threads,
        start: Instant::now(),
        deadline: Duration::from_secs(
            std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 6 * 3600 }),
        ),
        only,
        filter: filter.clone(),
        stats: Mutex::new(vec![]),
        viols: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
        known: load_known(),
        known_hits: Mutex::new(Default::default()),
        samples: Mutex::new(vec![]),
        extra: Mutex::new(Default::default()),
        assumptions: Mutex::new(vec![]),
        incomplete: AtomicBool::new(false),
        hang_secs: std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
        rule: Mutex::new(String::new()),
        level,
        max_report: 400,
        idle: AtomicU64::new(0),
    };
    if let Some(file) = replay {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("replay json");
        let mut seen = std::collections::BTreeSet::new();
        let mut rc = 0;
        for c in j["cases"].as_array().unwrap() {
            let k = (c["space"].as_str().unwrap().to_string(), c["index"].as_u64().unwrap());
            if !seen.insert(k.clone()) {
                continue;
            }
            // the states of C25 exist only in a complete search
            let all = prop == "C25";
            let r = mk(if all || k.0 == "preparation" { None } else { Some(k) });
            explore(f, &r);
            rc |= r.finish();
            if all {
                break;
            }
        }
        std::process::exit(rc);
    }
    let r: &'static Run = Box::leak(Box::new(mk(None)));
    if tier == Tier::Quick {
        // a call of the library outside of a space that does not return
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            let since = r.idle.load(SeqCst);
            if since != u64::MAX && r.start.elapsed().as_millis() as u64 > since.saturating_add(400_000) {
                r.report("preparation", 0, "preparation of the next space => hang: no result within 400 s".into());
                r.incomplete.store(true, SeqCst);
                std::process::exit(r.finish());
            }
        });
    }
    explore(f, r);
    std::process::exit(r.finish());
}

/// Runs a check; a panic while it prepares its spaces is one of the library as well.
fn explore(f: CheckFn, r: &Run) {
    if let Err(e) = guard(|| f(r)) {
        r.report("preparation", 0, format!("preparation of the next space => {}", e));
    }
}
