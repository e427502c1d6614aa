//! Execution of a space in child processes: an abort, a crash or a hang of one case is a verdict on
//! that case and does not end the exploration.

use crate::core::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const SLOT: usize = 64; // words per worker
struct Shared(*mut AtomicU64, usize);
impl Shared {
    fn new(n: usize) -> Shared {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            Shared(p as *mut AtomicU64, n)
        }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.1);
        unsafe { &*self.0.add(i) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut libc::c_void, self.1 * 8);
        }
    }
}
unsafe impl Sync for Shared {}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// counters a case may add to: shown in the evidence
pub struct Out<'a> {
    pub w: W,
    sh: &'a Shared,
    base: usize,
    k: u64,
}
impl Out<'_> {
    /// name the step inside the case, so that a crash report can tell it
    pub fn step(&mut self, k: u64) {
        self.k = k;
        self.sh.at(self.base + 2).store(k, SeqCst);
    }
}

/// Execute `f` on 0..total, each case in one of several child processes. `hang` in seconds per case.
pub fn isolated<D, F>(r: &Run, name: &str, total: u64, hang: u64, desc: D, f: F)
where
    D: Fn(u64) -> String,
    F: Fn(u64, &mut Out) + Sync,
{
    if let Some(flt) = &r.filter {
        if !name.contains(flt.as_str()) {
            return;
        }
    }
    let (lo, hi) = match &r.only {
        Some((s, i)) if s == name && *i < total => (*i, *i + 1),
        Some(_) => return,
        None => (0, total),
    };
    if hi == lo {
        return;
    }
    if r.only.is_none() {
        for i in [total / 7, total / 2] {
            r.sample(format!("{}[{}]: {}", name, i, desc(i)));
        }
    }
    let t0 = Instant::now();
    let nw = r.threads.min((hi - lo) as usize).max(1);
    let sh = Shared::new(SLOT * (nw + 1));
    sh.at(0).store(lo, SeqCst);
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), r.prop));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    // slot layout: 0 start time (0 = idle), 1 index, 2 step, 3 evaluations, 4 nontrivial, 5 executed
    let spawn = |slot: usize| -> i32 {
        let base = SLOT * (slot + 1);
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid != 0 {
                return pid;
            }
            // child: never returns
            let fr = &f;
            let shr = &sh;
            let verbose = std::env::var("MC_SLOW").is_ok();
            let path = dir.join(format!("{}", slot));
            let code = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut file = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
                        crate::oracle::mpfr_init();
                        let mut o = Out { w: W::empty(), sh: shr, base, k: 0 };
                        loop {
                            let i = shr.at(0).fetch_add(1, SeqCst);
                            if i >= hi {
                                return 0;
                            }
                            shr.at(base + 1).store(i, SeqCst);
                            o.step(0);
                            shr.at(base).store(now(), SeqCst);
                            let (e0, n0) = (o.w.evals, o.w.nontriv);
                            let g = guard(|| fr(i, &mut o));
                            let st = shr.at(base).swap(0, SeqCst);
                            if verbose && now() > st + 3000 {
                                eprintln!("slow: {} ms, {} steps: case {}", now() - st, o.k, i);
                            }
                            if let Err(e) = g {
                                let _ = writeln!(file, "{}\tstep {} => {}", i, o.k, e.replace('\n', " "));
                            }
                            for m in std::mem::take(&mut o.w.fails) {
                                let _ = writeln!(file, "{}\t{}", i, m.replace('\n', " "));
                            }
                            o.w.nfails = 0;
                            shr.at(base + 3).fetch_add(o.w.evals - e0, SeqCst);
                            shr.at(base + 4).fetch_add(o.w.nontriv - n0, SeqCst);
                            shr.at(base + 5).fetch_add(1, SeqCst);
                        }
                    })
                    .unwrap()
                    .join()
                    .map(|_: i32| 0)
                    .unwrap_or(77)
            });
            libc::_exit(code)
        }
    };
    let mut pids: Vec<i32> = (0..nw).map(&spawn).collect();
    let mut alive = nw;
    let mut crashes = 0u64;
    while alive > 0 {
        std::thread::sleep(Duration::from_millis(3));
        for slot in 0..nw {
            if pids[slot] == 0 {
                continue;
            }
            let base = SLOT * (slot + 1);
            let mut st = 0;
            let rc = unsafe { libc::waitpid(pids[slot], &mut st, libc::WNOHANG) };
            let mut again = false;
            if rc == pids[slot] {
                pids[slot] = 0;
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    let i = sh.at(base + 1).load(SeqCst);
                    let how = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
                    r.report(name, i, format!("{}: {} step {} => the process ended: {}", name, desc(i), sh.at(base + 2).load(SeqCst), how));
                    sh.at(base + 3).fetch_add(1, SeqCst);
                    sh.at(base + 5).fetch_add(1, SeqCst);
                    again = true;
                } else {
                    alive -= 1;
                }
            } else {
                let t = sh.at(base).load(SeqCst);
                if t != 0 && now() > t + hang * 1000 && sh.at(base).load(SeqCst) == t {
                    let i = sh.at(base + 1).load(SeqCst);
                    unsafe {
                        libc::kill(pids[slot], libc::SIGKILL);
                        libc::waitpid(pids[slot], &mut st, 0);
                    }
                    pids[slot] = 0;
                    r.report(name, i, format!("{}: {} step {} => hang: no result within {} s", name, desc(i), sh.at(base + 2).load(SeqCst), hang));
                    sh.at(base + 5).fetch_add(1, SeqCst);
                    again = true;
                }
            }
            if again {
                crashes += 1;
                sh.at(base).store(0, SeqCst);
                if crashes > 400 || r.start.elapsed() > r.deadline {
                    alive -= 1;
                    r.incomplete.store(true, SeqCst);
                } else {
                    pids[slot] = spawn(slot);
                }
            }
        }
        if r.nviol.load(SeqCst) > 5000 {
            sh.at(0).store(hi, SeqCst);
        }
    }
    for slot in 0..nw {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("{}", slot))) {
            for l in s.lines() {
                if let Some((i, m)) = l.split_once('\t') {
                    let i: u64 = i.parse().unwrap_or(0);
                    r.report(name, i, format!("{}: {} {}", name, desc(i), m));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let sum = |k: usize| (0..nw).map(|s| sh.at(SLOT * (s + 1) + k).load(SeqCst)).sum::<u64>();
    r.stats.lock().unwrap().push(SpaceStat { name: name.to_string(), dims: vec![total as usize], size: total, executed: sum(5), evals: sum(3), nontriv: sum(4), secs: t0.elapsed().as_secs_f64() });
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("space {} size {} evals {} nontriv {} {:.1}s viol {}", name, total, sum(3), sum(4), t0.elapsed().as_secs_f64(), r.nviol.load(SeqCst));
    }
}
