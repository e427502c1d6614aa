//! Exhaustive-enumeration engine: finite product spaces, executed completely and in parallel,
//! with panic capture, hang detection, known-findings filtering, replay and evidence.

use astro_float_num::Consts;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if DEPTH.with(|d| d.get()) == 0 {
            eprintln!("panic '{}' at {}", msg, loc);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic '{}' at {}", msg, loc));
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A constants cache that is created when it is first needed.
pub struct Lazy(Option<Consts>);
impl std::ops::Deref for Lazy {
    type Target = Consts;
    fn deref(&self) -> &Consts {
        self.0.as_ref().expect("cache not created")
    }
}
impl std::ops::DerefMut for Lazy {
    fn deref_mut(&mut self) -> &mut Consts {
        self.0.get_or_insert_with(|| Consts::new().expect("consts"))
    }
}

/// Per-worker state handed to every case.
pub struct W {
    pub cc: Lazy,
    pub evals: u64,
    pub nontriv: u64,
    pub sub: [usize; 3],
    pub fails: Vec<String>,
    pub nfails: u64,
}

impl W {
    pub fn new() -> Self {
        W::with(Some(Consts::new().expect("consts")))
    }
    pub fn empty() -> Self {
        W::with(None)
    }
    fn with(cc: Option<Consts>) -> Self {
        W {
            cc: Lazy(cc),
            evals: 0,
            nontriv: 0,
            sub: [0; 3],
            fails: vec![],
            nfails: 0,
        }
    }
    #[inline]
    pub fn count(&mut self, nontrivial: bool) {
        self.evals += 1;
        self.nontriv += nontrivial as u64;
    }
    pub fn fail(&mut self, s: String) {
        self.nfails += 1;
        if self.fails.len() < 64 {
            self.fails.push(s);
        }
    }
    /// evaluate a sub-case: Ok(nontrivial) or Err(message)
    pub fn sub(&mut self, r: Result<bool, String>, ctx: impl FnOnce() -> String) {
        match r {
            Ok(n) => self.count(n),
            Err(e) => {
                self.evals += 1;
                let c = ctx();
                self.fail(format!("{} => {}", c, e));
            }
        }
    }
}

pub struct SpaceStat {
    pub name: String,
    pub dims: Vec<usize>,
    pub size: u64,
    pub executed: u64,
    pub evals: u64,
    pub nontriv: u64,
    pub secs: f64,
}

pub struct Viol {
    pub id: String,
    pub idx: u64,
    pub text: String,
}

pub struct Known {
    pub prop: String,
    pub pattern: String,
    pub what: String,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    pub deadline: Duration,
    pub only: Option<(String, u64)>,
    pub filter: Option<String>,
    pub stats: Mutex<Vec<SpaceStat>>,
    pub viols: Mutex<Vec<Viol>>,
    pub nviol: AtomicU64,
    pub known: Vec<Known>,
    pub known_hits: Mutex<BTreeMap<String, (u64, String)>>,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<serde_json::Map<String, serde_json::Value>>,
    pub assumptions: Mutex<Vec<String>>,
    pub incomplete: AtomicBool,
    pub hang_secs: u64,
    pub rule: Mutex<String>,
    pub level: &'static str,
    pub max_report: usize,
    /// milliseconds after the start at which the last space ended; u64::MAX inside a space
    pub idle: AtomicU64,
}

impl Run {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick by tier
    pub fn t<T>(&self, q: T, th: T) -> T {
        if self.quick() {
            q
        } else {
            th
        }
    }

    pub fn report(&self, space: &str, idx: u64, text: String) {
        for k in &self.known {
            if k.prop == self.prop && text.contains(&k.pattern) {
                let mut h = self.known_hits.lock().unwrap();
                let e = h.entry(k.pattern.clone()).or_insert((0, k.what.clone()));
                e.0 += 1;
                return;
            }
        }
        self.nviol.fetch_add(1, SeqCst);
        let mut v = self.viols.lock().unwrap();
        if v.len() < self.max_report {
            v.push(Viol { id: space.to_string(), idx, text });
        }
    }

    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            v.push(s);
        }
    }

    /// Execute `f` on every element of the product `dims`. `desc` names an element.
    pub fn space<F, D>(&self, name: &str, dims: &[usize], desc: D, f: F)
    where
        F: Fn(&[usize], &mut W) + Sync,
        D: Fn(&[usize]) -> String + Sync,
    {
        if let Some(flt) = &self.filter {
            if !name.contains(flt.as_str()) {
                return;
            }
        }
        let total: u64 = dims.iter().map(|&d| d as u64).product();
        let t0 = Instant::now();
        if let Some((s, i)) = &self.only {
            if s != name || *i >= total {
                return;
            }
        }
        if total == 0 {
            return;
        }
        let unrank = |mut i: u64, v: &mut Vec<usize>| {
            v.clear();
            v.resize(dims.len(), 0);
            for k in (0..dims.len()).rev() {
                v[k] = (i % dims[k] as u64) as usize;
                i /= dims[k] as u64;
            }
        };
        // the text of a case may need the library as well
        let said = |v: &[usize]| guard(|| desc(v)).unwrap_or_else(|e| format!("{:?} (its description fails: {})", v, e));
        if self.only.is_none() {
            let mut v = vec![];
            for i in [total / 7, total / 2] {
                unrank(i, &mut v);
                self.sample(format!("{}[{}]: {}", name, i, said(&v)));
            }
        }
        let (lo, hi) = match &self.only {
            Some((_, i)) => (*i, *i + 1),
            None => (0, total),
        };
        let next = AtomicU64::new(lo);
        let executed = AtomicU64::new(0);
        let evals = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        let nth = self.threads.min((hi - lo) as usize).max(1);
        let chunk = ((hi - lo) / (nth as u64 * 256)).clamp(1, 4096);
        // slot: (start time in ms + 1, index); 0 = idle
        let slots: Vec<(AtomicU64, AtomicU64)> =
            (0..nth).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let finished = AtomicU64::new(0);
        let base = Instant::now();
        self.idle.store(u64::MAX, SeqCst);
        std::thread::scope(|sc| {
            for t in 0..nth {
                let (next, slots, executed, evals, nontriv, finished, f, said, unrank) =
                    (&next, &slots, &executed, &evals, &nontriv, &finished, &f, &said, &unrank);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        crate::oracle::mpfr_init();
                        let made = guard(W::new);
                        let mut w = match made {
                            Ok(w) => w,
                            Err(e) => {
                                self.report(name, lo, format!("{}: the constants cache cannot be created => {}", name, e));
                                finished.fetch_add(1, SeqCst);
                                return;
                            }
                        };
                        let mut v = Vec::new();
                        'outer: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= hi {
                                break;
                            }
                            if self.start.elapsed() > self.deadline {
                                self.incomplete.store(true, SeqCst);
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                unrank(i, &mut v);
                                slots[t].1.store(i, Relaxed);
                                slots[t].0.store(base.elapsed().as_millis() as u64 + 1, SeqCst);
                                w.sub = [0; 3];
                                let r = guard(|| f(&v, &mut w));
                                slots[t].0.store(0, SeqCst);
                                if let Err(e) = r {
                                    let s = format!("{}: {} sub={:?} => {}", name, said(&v), w.sub, e);
                                    self.report(name, i, s);
                                    w.cc = Lazy(guard(|| Consts::new().ok()).unwrap_or(None));
                                    w.evals += 1;
                                }
                                if w.nfails > 0 {
                                    w.nfails = 0;
                                    for m in std::mem::take(&mut w.fails) {
                                        self.report(name, i, format!("{}: {} {}", name, said(&v), m));
                                    }
                                }
                                executed.fetch_add(1, Relaxed);
                                if self.nviol.load(Relaxed) > 5000 {
                                    break 'outer;
                                }
                            }
                        }
                        evals.fetch_add(w.evals, SeqCst);
                        nontriv.fetch_add(w.nontriv, SeqCst);
                        finished.fetch_add(1, SeqCst);
                    })
                    .expect("spawn");
            }
            // watchdog
            let (slots, finished, said, unrank) = (&slots, &finished, &said, &unrank);
            sc.spawn(move || {
                let mut n = 0u64;
                while finished.load(SeqCst) < nth as u64 {
                    std::thread::sleep(Duration::from_millis(if n < 50 { 2 } else { 50 }));
                    n += 1;
                    let now = base.elapsed().as_millis() as u64;
                    for s in slots.iter() {
                        let st = s.0.load(SeqCst);
                        if st != 0 && now > st && now - st > self.hang_secs * 1000 {
                            let i = s.1.load(SeqCst);
                            if s.0.load(SeqCst) != st {
                                continue;
                            }
                            let mut v = vec![];
                            unrank(i, &mut v);
                            self.report(
                                name,
                                i,
                                format!("{}: {} => hang: no result within {} s", name, said(&v), self.hang_secs),
                            );
                            // a hung thread cannot be stopped: report and leave
                            self.incomplete.store(true, SeqCst);
                            std::process::exit(self.finish());
                        }
                    }
                }
            });
        });
        self.idle.store(self.start.elapsed().as_millis() as u64, SeqCst);
        self.stats.lock().unwrap().push(SpaceStat {
            name: name.to_string(),
            dims: dims.to_vec(),
            size: total,
            executed: executed.load(SeqCst),
            evals: evals.load(SeqCst),
            nontriv: nontriv.load(SeqCst),
            secs: t0.elapsed().as_secs_f64(),
        });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "space {} size {} evals {} nontriv {} {:.1}s viol {}",
                name,
                total,
                evals.load(SeqCst),
                nontriv.load(SeqCst),
                t0.elapsed().as_secs_f64(),
                self.nviol.load(SeqCst)
            );
        }
    }

    /// Prints the verdict, writes evidence and replay files; returns the exit code.
    pub fn finish(&self) -> i32 {
        let nv = self.nviol.load(SeqCst);
        let tier = if self.quick() { "quick" } else { "thorough" };
        {
            let h = self.known_hits.lock().unwrap();
            for (k, (n, what)) in h.iter() {
                println!("KNOWN-FINDING: property={} {} [{} cases, pattern {:?}]", self.prop, what, n, k);
            }
        }
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        if self.only.is_none() && self.filter.is_none() {
            let st = self.stats.lock().unwrap();
            let spaces: Vec<_> = st
                .iter()
                .map(|s| {
                    serde_json::json!({"space": s.name, "dims": s.dims, "size": s.size, "executed": s.executed,
                "evaluations": s.evals, "nontrivial": s.nontriv, "seconds": (s.secs*100.0).round()/100.0})
                })
                .collect();
            let ev: u64 = st.iter().map(|s| s.evals).sum();
            let nt: u64 = st.iter().map(|s| s.nontriv).sum();
            let mut cov = serde_json::Map::new();
            cov.insert("evaluations".into(), ev.into());
            cov.insert("distinct_nontrivial".into(), nt.into());
            cov.insert("rule".into(), self.rule.lock().unwrap().clone().into());
            cov.insert("samples".into(), serde_json::json!(*self.samples.lock().unwrap()));
            cov.insert("exhaustive".into(), (!self.incomplete.load(SeqCst) && nv == 0).into());
            cov.insert("spaces".into(), spaces.into());
            for (k, v) in self.extra.lock().unwrap().iter() {
                cov.insert(k.clone(), v.clone());
            }
            let j = serde_json::json!({
                "property": self.prop, "tier": tier, "seed": self.seed, "level": self.level,
                "coverage": cov, "assumptions": *self.assumptions.lock().unwrap(),
                "wall_s": self.start.elapsed().as_secs_f64(), "violations": nv,
            });
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            let p = format!("{}/evidence/{}.json", root, self.prop);
            if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n") {
                eprintln!("cannot write {}: {}", p, e);
                return 2;
            }
        }
        let v = self.viols.lock().unwrap();
        if nv > 0 {
            let dir = format!("{}/out", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-replay.json", dir, self.prop);
            let j = serde_json::json!({
                "property": self.prop, "tier": tier, "total_violations": nv,
                "cases": v.iter().map(|x| serde_json::json!({"space": x.id, "index": x.idx, "text": x.text})).collect::<Vec<_>>(),
                "how": format!("/verif/run.sh {} {} --replay {}", self.prop, tier, path),
            });
            if self.only.is_none() {
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            }
            for x in v.iter().take(if std::env::var("MC_VERBOSE").is_ok() { 8000 } else { 10 }) {
                println!("  {}", x.text);
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("{} violating cases", nv);
            1
        } else {
            let st = self.stats.lock().unwrap();
            println!(
                "OK property={} tier={} evaluations={} exhaustive={} wall={:.1}s",
                self.prop,
                tier,
                st.iter().map(|s| s.evals).sum::<u64>(),
                !self.incomplete.load(SeqCst),
                self.start.elapsed().as_secs_f64()
            );
            0
        }
    }
}
