//! C20 (constants) and C21 (histories of the constants cache).

use crate::core::*;
use crate::ops::{self, *};
use crate::oracle::*;
use crate::trans::{check_ref, const_ref, get_const, Ref, CONSTS};
use astro_float_num::{BigFloat, Consts, RoundingMode as RM};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};

static MASTER: OnceLock<Vec<(rug::Integer, i64)>> = OnceLock::new();

fn short_ref(c: usize, p: usize) -> Ref {
    let (m, e) = &MASTER.get().unwrap()[c];
    let cut = m.significant_bits() as usize - (p + 128);
    Ref::Num { neg: false, m: rug::Integer::from(m >> cut as u32), e: e + cut as i64, sticky: true }
}

fn const_case(cc: &mut Consts, c: usize, p: usize, rm: RM) -> Result<bool, String> {
    let b = get_const(cc, c, p, rm);
    check_ref(&b, &short_ref(c, rp(p)), rp(p), rm, false, STRICT)
}

pub fn c20(r: &Run) {
    *r.rule.lock().unwrap() = "Every precision in words up to a bound, every precision in bits up to 320, all modes, each from a fresh cache, from a cache that grows and from a cache that was asked for more before; all pairs of requests (precision, then precision and mode) over two constants; expected values from MPFR constants with at least 128 more bits. A result is counted as nontrivial when it is a rounded one.".into();
    let maxw: usize = r.t(1100, 3300);
    let _ = MASTER.set(
        (0..4)
            .map(|c| match const_ref(c, maxw * 64 + 512) {
                Ref::Num { m, e, .. } => (m, e),
                _ => unreachable!(),
            })
            .collect(),
    );
    let fresh = || Consts::new().expect("cache");
    let k1 = r.t(160, 320);
    r.space(
        "fresh",
        &[4, k1, 7],
        |i| format!("{} {} words {:?}", CONSTS[i[0]], k1 - i[1], RMS[i[2]]),
        |i, w| {
            let (p, rm) = ((k1 - i[1]) * 64, RMS[i[2]]);
            let c = const_case(&mut fresh(), i[0], p, rm);
            w.sub(c, || format!("{}({}, {:?}) from a fresh cache", CONSTS[i[0]], p, rm));
        },
    );
    r.space(
        "bits",
        &[4, 320],
        |i| format!("{} p={}", CONSTS[i[0]], i[1] + 1),
        |i, w| {
            for rm in RMS {
                let c = const_case(&mut w.cc, i[0], i[1] + 1, rm);
                w.sub(c, || format!("{}({}, {:?})", CONSTS[i[0]], i[1] + 1, rm));
            }
        },
    );
    // growing and shrinking requests with steps of 1, 2, 3, ... words
    let kg = r.t(200usize, 700);
    r.space(
        "sweep",
        &[4, 4, 2, 7],
        |i| format!("{} step {} {} {:?}", CONSTS[i[0]], i[1] + 1, ["up", "down"][i[2]], RMS[i[3]]),
        |i, w| {
            let mut cc = fresh();
            let n = kg / (i[1] + 1);
            for j in 0..n {
                let k = if i[2] == 0 { j * (i[1] + 1) + 1 } else { (n - j) * (i[1] + 1) };
                let c = const_case(&mut cc, i[0], k * 64, RMS[i[3]]);
                w.sub(c, || format!("{}({}, {:?}) request {} of the sweep", CONSTS[i[0]], k * 64, RMS[i[3]], j));
            }
        },
    );
    // all pairs: what was requested first must not matter
    let ks: Vec<usize> = r.t(vec![1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 23, 24, 31, 32, 48], (1..=64).collect());
    r.space(
        "pairs",
        &[4, 4, ks.len(), ks.len()],
        |i| format!("{} {} words then {} {} words", CONSTS[i[0]], ks[i[2]], CONSTS[i[1]], ks[i[3]]),
        |i, w| {
            for (a, b) in [(RM::ToEven, RM::Up), (RM::Down, RM::ToEven), (RM::None, RM::ToOdd)] {
                let mut cc = fresh();
                let c = const_case(&mut cc, i[0], ks[i[2]] * 64, a);
                w.sub(c, || format!("first {}({} words, {:?})", CONSTS[i[0]], ks[i[2]], a));
                let c = const_case(&mut cc, i[1], ks[i[3]] * 64, b);
                w.sub(c, || format!("{}({} words, {:?}) then {}({} words, {:?})", CONSTS[i[0]], ks[i[2]], a, CONSTS[i[1]], ks[i[3]], b));
            }
        },
    );
    let big: Vec<usize> = r.t([1000, 513].into_iter().chain((161..=320).rev()).collect(), [3200, 2049].into_iter().chain((321..=1100).rev()).collect());
    r.space(
        "large",
        &[big.len(), 4, 3],
        |i| format!("{} words {}", big[i[0]], CONSTS[i[1]]),
        |i, w| {
            let rm = [RM::ToEven, RM::Down, RM::FromZero][i[2]];
            let c = const_case(&mut fresh(), i[1], big[i[0]] * 64, rm);
            w.sub(c, || format!("{}({} words, {:?})", CONSTS[i[1]], big[i[0]], rm));
        },
    );
}

// ---------------------------------------------------------------- C21

#[derive(Clone)]
struct Act {
    op: usize,
    x: usize,
    y: usize,
    p: usize,
    rm: RM,
    n: u64,
    s: usize,
}

struct Pool {
    nums: Vec<BigFloat>,
    strs: Vec<String>,
}

fn do_act(a: &Act, pool: &Pool, cc: &mut Consts) -> String {
    let arg = A { x: &pool.nums[a.x], y: &pool.nums[a.y], z: &pool.nums[0], p: a.p, rm: a.rm, n: a.n, s: &pool.strs[a.s] };
    match guard(|| ops::apply(a.op, &arg, cc)) {
        Ok(r) => ops::show(&r),
        Err(e) => e,
    }
}

fn act_text(a: &Act, pool: &Pool) -> String {
    let f = OPS[a.op].1;
    let mut s = format!("{}(", OPS[a.op].0);
    if f & X != 0 {
        s += &format!("x={} ", crate::oracle::show(&pool.nums[a.x]));
    }
    if f & Y != 0 {
        s += &format!("y={} ", crate::oracle::show(&pool.nums[a.y]));
    }
    if f & S != 0 {
        s += &format!("{:.20}..({}) ", pool.strs[a.s], pool.strs[a.s].len());
    }
    if f & N != 0 {
        s += &format!("n={} ", a.n);
    }
    format!("{}p={} {:?})", s, a.p, a.rm)
}

fn pool() -> Pool {
    let d = |n: i64, s: i64| encode(&Dy { neg: n < 0, m: rug::Integer::from(n.abs()), e: -s }, 64);
    let mut nums = vec![d(3, 1), d(5, 3), d(7, 0), d(-9, 2), crate::alpha::with_exp(&d(3, 0), 90), crate::alpha::with_exp(&d(5, 0), -70)];
    // wide numbers for decimal conversion
    for w in [10usize, 20] {
        nums.push(mk(&vec![0x9E37_79B9_7F4A_7C15u64; w], false, 7));
    }
    let strs = vec![
        "1.5e3".to_string(),
        format!("0.{}e-7", "3141592653589793238".repeat(3)),
        format!("{}.5e2", "27182818284590452353".repeat(10)),
        format!("-0.{}", "1234567890".repeat(70)),
        "1.5x".to_string(),
    ];
    Pool { nums, strs }
}

fn actions(quick: bool) -> Vec<Act> {
    let mut v = vec![];
    let mut add = |name: &str, x: usize, y: usize, p: usize, rm: RM, n: u64, s: usize| v.push(Act { op: index(name), x, y, p, rm, n, s });
    // constants: precision levels of the caches
    let ps: Vec<usize> = if quick { vec![64, 1100] } else { vec![64, 320, 1280, 2560] };
    for (j, c) in ["pi", "e", "ln_2", "ln_10"].iter().enumerate() {
        for (k, &p) in ps.iter().enumerate() {
            add(c, 0, 0, p, RMS[(j + k) % 7], 0, 0);
        }
        // a request that fails
        add(c, 0, 0, usize::MAX, RM::ToEven, 0, 0);
    }
    // functions that use the caches
    for (f, x) in [("exp", 0), ("exp", 4), ("ln", 2), ("log2", 2), ("log10", 0), ("sin", 2), ("cos", 4), ("tan", 0), ("asin", 1), ("acos", 1), ("atan", 3), ("sinh", 2), ("cosh", 3), ("tanh", 0), ("asinh", 2), ("acosh", 2), ("atanh", 1), ("ln", 3), ("exp", 5)] {
        add(f, x, 0, 64, RM::ToEven, 0, 0);
    }
    add("pow", 2, 1, 128, RM::Up, 0, 0);
    add("log", 2, 0, 128, RM::Down, 0, 0);
    add("sin", 0, 0, 640, RM::ToEven, 0, 0);
    add("ln", 2, 0, 640, RM::ToZero, 0, 0);
    add("exp", 0, 0, 640, RM::ToEven, 0, 0);
    add("sin", 0, 0, usize::MAX / 4, RM::ToEven, 0, 0);
    // decimal conversion: levels of the table of powers of ten
    for (j, x) in [0usize, 6, 7].iter().enumerate() {
        add("format", *x, 0, 64, RMS[j], 0, 0);
    }
    for s in 0..5 {
        add("parse", 0, 0, 192, RM::ToEven, 0, s);
    }
    add("convert_to_radix", 6, 0, 64, RM::Down, 0, 0);
    v
}

pub fn c21(r: &Run) {
    *r.rule.lock().unwrap() = "Explicit-state exploration: a state is the whole content of the constants cache (its derived debug text), the initial state is a new cache, a transition is one cache-using call of the real library. From every reachable state every action is executed and its result compared bit for bit with the result from a fresh cache; the search runs to a fixpoint (no new state). States are revisited by replaying the shortest history. The thread-local cache of text conversion is explored by executing all sequences of parse/display calls up to a length, each in its own thread.".into();
    let pool = pool();
    let acts = actions(r.quick());
    if r.filter.as_deref().map(|f| "bfs".contains(f)).unwrap_or(true) && r.only.as_ref().map(|o| o.0 == "bfs").unwrap_or(true) {
        bfs(r, &pool, &acts);
    }
    // thread-local cache
    let calls: Vec<Act> = {
        let mut v = vec![];
        for s in 0..5 {
            v.push(Act { op: index("from_str"), x: 0, y: 0, p: 64, rm: RM::ToEven, n: 0, s });
        }
        for x in [0, 3, 6, 7] {
            v.push(Act { op: index("display"), x, y: 0, p: 64, rm: RM::ToEven, n: 0, s: 0 });
        }
        v
    };
    let fresh: Vec<String> = calls.iter().map(|a| std::thread::scope(|s| s.spawn(|| do_act(a, &pool, &mut Consts::new().unwrap())).join().unwrap())).collect();
    for l in 1..=r.t(4, 5) {
        r.space(
            &format!("thread-{}", l),
            &[calls.len().pow(l)],
            |i| format!("sequence #{}", i[0]),
            |i, w| {
                let mut k = i[0];
                let seq: Vec<usize> = (0..l)
                    .map(|_| {
                        let c = k % calls.len();
                        k /= calls.len();
                        c
                    })
                    .collect();
                let got: Vec<String> = std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut cc = Consts::new().unwrap();
                        seq.iter().map(|a| do_act(&calls[*a], &pool, &mut cc)).collect()
                    })
                    .join()
                    .unwrap()
                });
                for (j, g) in got.iter().enumerate() {
                    let want = &fresh[seq[j]];
                    w.sub(if g == want { Ok(j > 0) } else { Err(format!("got {} want {}", g, want)) }, || {
                        seq[..=j].iter().map(|a| act_text(&calls[*a], &pool)).collect::<Vec<_>>().join("; ")
                    });
                }
            },
        );
    }
}

fn bfs(r: &Run, pool: &Pool, acts: &[Act]) {
    let t0 = std::time::Instant::now();
    let want: Vec<String> = acts.iter().map(|a| do_act(a, pool, &mut Consts::new().expect("cache"))).collect();
    let key = |cc: &Consts| ops::hash(&format!("{:?}", cc));
    let mut seen: HashMap<u64, u32> = HashMap::new();
    let mut frontier: Vec<Vec<u16>> = vec![vec![]];
    seen.insert(key(&Consts::new().expect("cache")), 0);
    let transitions = AtomicU64::new(0);
    let nontriv = AtomicU64::new(0);
    let mut depth = 0u32;
    let mut complete = true;
    let maxdepth = 64;
    while !frontier.is_empty() && depth < maxdepth {
        if r.start.elapsed() > r.deadline {
            complete = false;
            break;
        }
        depth += 1;
        let next = AtomicU64::new(0);
        let found: Mutex<Vec<(u64, Vec<u16>)>> = Mutex::new(vec![]);
        let seen_ref = &seen;
        std::thread::scope(|s| {
            for _ in 0..r.threads {
                s.spawn(|| {
                    crate::oracle::mpfr_init();
                    let mut local: HashSet<u64> = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, SeqCst) as usize;
                        if i >= frontier.len() * acts.len() {
                            break;
                        }
                        let (h, a) = (&frontier[i / acts.len()], i % acts.len());
                        let mut cc = Consts::new().expect("cache");
                        for &b in h {
                            do_act(&acts[b as usize], pool, &mut cc);
                        }
                        let got = do_act(&acts[a], pool, &mut cc);
                        transitions.fetch_add(1, Relaxed);
                        if !h.is_empty() {
                            nontriv.fetch_add(1, Relaxed);
                        }
                        if got != want[a] {
                            r.report("bfs", i as u64, format!("after [{}] {} => got {} want {}", h.iter().map(|b| act_text(&acts[*b as usize], pool)).collect::<Vec<_>>().join("; "), act_text(&acts[a], pool), got, want[a]));
                        }
                        let k = key(&cc);
                        if !seen_ref.contains_key(&k) && local.insert(k) {
                            let mut n = h.clone();
                            n.push(a as u16);
                            found.lock().unwrap().push((k, n));
                        }
                    }
                });
            }
        });
        let mut f = found.into_inner().unwrap();
        f.sort();
        frontier = vec![];
        for (k, h) in f {
            if !seen.contains_key(&k) {
                seen.insert(k, depth);
                frontier.push(h);
            }
        }
    }
    if !frontier.is_empty() {
        complete = false;
    }
    if !complete {
        r.incomplete.store(true, SeqCst);
    }
    let (st, tr) = (seen.len() as u64, transitions.load(SeqCst));
    let mut ex = r.extra.lock().unwrap();
    ex.insert("states".into(), st.into());
    ex.insert("transitions".into(), tr.into());
    ex.insert("traces_validated_against_impl".into(), tr.into());
    ex.insert("fixpoint_reached".into(), complete.into());
    ex.insert("depth_of_search".into(), depth.into());
    ex.insert("actions".into(), serde_json::json!(acts.iter().map(|a| act_text(a, pool)).collect::<Vec<_>>()));
    drop(ex);
    r.sample(format!("bfs: from a cache state, {}", act_text(&acts[1], pool)));
    r.stats.lock().unwrap().push(SpaceStat { name: "bfs".into(), dims: vec![st as usize, acts.len()], size: tr, executed: tr, evals: tr, nontriv: nontriv.load(SeqCst), secs: t0.elapsed().as_secs_f64() });
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("bfs: {} states {} transitions depth {} fixpoint {} {:.1}s", st, tr, depth, complete, t0.elapsed().as_secs_f64());
    }
}
