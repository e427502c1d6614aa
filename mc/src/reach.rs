//! C25: every number reachable by sequences of operations is in canonical form.

use crate::core::*;
use crate::edges::canon;
use crate::mem::with_limit;
use crate::ops::{self, index, Res, A, CC, N, OPS, P, R, S, X, Y, Z};
use crate::oracle::*;
use crate::total::numbers24;
use astro_float_num::{BigFloat, RoundingMode as RM, Sign, EXPONENT_MAX, EXPONENT_MIN};
use std::collections::HashSet;
use std::num::FpCategory;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

struct Act {
    op: usize,
    y: usize,
    z: usize,
    p: usize,
    rm: RM,
    n: u64,
}

fn text(b: &BigFloat) -> String {
    let mut s = String::new();
    ops::text(b, &mut s);
    s
}

/// Do all queries agree with the raw parts?
pub fn queries(x: &BigFloat) -> Result<bool, String> {
    let e = |s: &str| Err(format!("{} of {}", s, text(x)));
    let (m, n, s, ex, inexact) = match x.as_raw_parts() {
        None => {
            let c = x.classify();
            let ok = if x.is_nan() {
                c == FpCategory::Nan && !x.is_inf() && x.sign().is_none() && !x.is_zero() && !x.is_subnormal() && x.cmp(x).is_none()
            } else {
                let pos = x.is_inf_pos();
                c == FpCategory::Infinite && x.is_inf() && pos != x.is_inf_neg() && x.is_positive() == pos && x.is_negative() != pos && x.sign() == Some(if pos { Sign::Pos } else { Sign::Neg }) && x.cmp(x) == Some(0)
            };
            let ok = ok && x.exponent().is_none() && x.precision().is_none() && x.mantissa_max_bit_len().is_none() && x.mantissa_digits().is_none();
            return if ok { Ok(false) } else { e("the classification") };
        }
        Some(v) => v,
    };
    let zero = m.iter().all(|w| *w == 0);
    let sub = m.last().map_or(false, |w| w >> 63 == 0); // as documented; includes zero
    let bits = m.len() * WB;
    if x.is_nan() || x.is_inf() || x.is_inf_pos() || x.is_inf_neg() || x.err().is_some() {
        return e("a special class");
    }
    if x.is_zero() != zero || x.is_subnormal() != sub {
        return e("is_zero or is_subnormal");
    }
    let c = if zero {
        FpCategory::Zero
    } else if sub {
        FpCategory::Subnormal
    } else {
        FpCategory::Normal
    };
    if x.classify() != c {
        return e("classify");
    }
    if x.sign() != Some(s) || x.is_positive() != (s == Sign::Pos) || x.is_negative() != (s == Sign::Neg) {
        return e("the sign");
    }
    if x.exponent() != Some(ex) || x.mantissa_max_bit_len() != Some(bits) || x.mantissa_digits() != Some(m) || x.inexact() != inexact {
        return e("exponent, length, digits or inexact flag");
    }
    if x.precision() != Some(n) {
        return e("precision");
    }
    if x.cmp(x) != Some(0) || x.abs_cmp(x) != Some(0) || !(x == x) {
        return e("comparison with itself");
    }
    let y = BigFloat::from_raw_parts(m, n, s, ex, inexact);
    if text(&y) != text(x) || text(&x.clone()) != text(x) {
        return e("from_raw_parts of raw parts, or clone,");
    }
    if text(&x.neg().neg()) != text(x) || x.abs().is_negative() {
        return e("neg or abs");
    }
    Ok(true)
}

fn actions(level: usize, ys: usize) -> Vec<Act> {
    let mut v = vec![];
    let ps: &[usize] = match level {
        0 => &[128],
        1 => &[64, 192],
        _ => &[1, 64, 128, 192],
    };
    let rms: &[RM] = match level {
        0 => &[RM::ToEven, RM::Down],
        1 => &[RM::ToEven, RM::Down, RM::None],
        _ => &[RM::ToEven, RM::Down, RM::None, RM::Up, RM::ToOdd],
    };
    for (op, (name, f)) in OPS.iter().enumerate() {
        if f & (X | S) != X || ["cmp", "queries", "format", "convert_to_radix", "display", "abs", "clone"].contains(name) {
            continue;
        }
        if level == 0 && f & CC != 0 && !["ln", "exp", "sin"].contains(name) {
            continue;
        }
        let ns: Vec<u64> = if f & N == 0 {
            vec![0]
        } else {
            match *name {
                "round" => vec![0, 1, 64, 200, EXPONENT_MAX as u64 + 63],
                "powi" => vec![0, 2, 3],
                "set_exponent" | "from_words" => {
                    let mut v = vec![0, EXPONENT_MAX as i64 as u64, EXPONENT_MIN as i64 as u64, (EXPONENT_MIN + 1) as i64 as u64];
                    if level > 0 {
                        v.extend([(EXPONENT_MIN + 63) as i64 as u64, 64, (-65i64) as u64]);
                    }
                    v
                }
                "try_set_precision" => vec![64, 128, 1000],
                "from_raw_parts" => vec![0, 1, u64::MAX],
                _ => vec![0, 1],
            }
        };
        let cheap = if f & CC != 0 { 2 } else { 99 };
        for y in 0..if f & Y != 0 { ys } else { 1 } {
            for z in 0..if f & Z != 0 { ys } else { 1 } {
                for p in &ps[..if f & P != 0 { ps.len().min(cheap) } else { 1 }] {
                    for rm in &rms[..if f & R != 0 { rms.len().min(cheap) } else { 1 }] {
                        for &n in &ns {
                            v.push(Act { op, y, z, p: *p, rm: *rm, n });
                        }
                    }
                }
            }
        }
    }
    v
}

fn act_text(a: &Act, ys: &[BigFloat]) -> String {
    let f = OPS[a.op].1;
    let mut s = OPS[a.op].0.to_string();
    if f & Y != 0 {
        s += &format!(" y={}", text(&ys[a.y]));
    }
    if f & Z != 0 {
        s += &format!(" z={}", text(&ys[a.z]));
    }
    if f & N != 0 {
        s += &format!(" n={}", a.n as i64);
    }
    if f & P != 0 {
        s += &format!(" p={}", a.p);
    }
    if f & R != 0 {
        s += &format!(" {:?}", a.rm);
    }
    s
}

pub fn c25(r: &Run) {
    *r.rule.lock().unwrap() = "Explicit-state exploration of the real code: a state is a number (its raw parts), the initial states are numbers at the boundaries of the representation, a transition applies one public operation with every combination of second operand, precision, rounding mode and count of the depth's alphabet. Every state is expanded once (visited set over raw parts), up to the depth bound; results longer than the size bound are checked but not expanded. On every transition: canonical form, requested mantissa length, all queries and copies agree with the raw parts.".into();
    let seeds = numbers24(2);
    let ys: Vec<BigFloat> = {
        let d = |n: i64, s: i64, p: usize| encode(&Dy { neg: n < 0, m: rug::Integer::from(n.abs()), e: -s }, p);
        vec![
            d(1, 0, 64),
            BigFloat::min_positive(128),
            mk(&[1, 1 << 63], true, 1),
            mk(&[u64::MAX], false, 0),
            BigFloat::max_value(64).neg(),
            mk(&[u64::MAX, 1], false, EXPONENT_MIN),
            BigFloat::new(64),
            mk(&[3, 1 << 63], false, 65),
            BigFloat::min_positive_normal(64).neg(),
            astro_float_num::INF_POS,
            mk(&[1 << 63, 0, 1 << 63], true, 70),
            mk(&[u64::MAX, u64::MAX, u64::MAX], false, -63),
        ]
    };
    // (alphabet level, number of second operands) per depth
    let plan: Vec<(usize, usize)> = r.t(vec![(2, 12), (0, 4)], vec![(2, 12), (2, 12), (0, 4)]);
    // states expanded at the last depth at most
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let insert = |b: &BigFloat| {
        let h = ops::hash(&text(b));
        seen[(h % 64) as usize].lock().unwrap().insert(h)
    };
    let mut frontier: Vec<BigFloat> = seeds.into_iter().filter(|b| insert(b)).collect();
    let transitions = AtomicU64::new(0);
    for b in &frontier {
        if let Err(e) = canon(b).and_then(|_| queries(b)) {
            r.report("seeds", 0, format!("seed {} => {}", text(b), e));
        }
    }
    let mut expanded = 0u64;
    let mut dropped = 0u64;
    for (depth, (level, ny)) in plan.iter().enumerate() {
        let acts = actions(*level, *ny);
        let found: Mutex<Vec<BigFloat>> = Mutex::new(vec![]);
        let big = AtomicU64::new(0);
        let last = depth + 1 == plan.len();
        let fr = &frontier;
        expanded += fr.len() as u64;
        r.space(
            &format!("depth-{}", depth + 1),
            &[fr.len()],
            |i| format!("{} operations on {}", acts.len(), text(&fr[i[0]])),
            |i, w| {
                let x = &fr[i[0]];
                let mut out = vec![];
                for a in &acts {
                    let f = OPS[a.op].1;
                    let g = guard(|| with_limit(1 << 20, || ops::apply(a.op, &A { x, y: &ys[a.y], z: &ys[a.z], p: a.p, rm: a.rm, n: a.n, s: "" }, &mut w.cc)));
                    transitions.fetch_add(1, Relaxed);
                    let ctx = || format!("{} {}", text(x), act_text(a, &ys));
                    let res = match g {
                        Err(e) => {
                            w.sub(Err(e), ctx);
                            continue;
                        }
                        Ok(Res::F(_, b)) => Res::B(b),
                        Ok(v) => v,
                    };
                    for b in ops::numbers(res) {
                        let ok = (|| {
                            let c = canon(&b)?;
                            queries(&b)?;
                            let want = (a.p + WB - 1) / WB * WB;
                            // from_ext and such do not take x
                            if f & P != 0 && b.as_raw_parts().is_some() && b.mantissa_max_bit_len() != Some(want) {
                                return Err(format!("length {:?} for precision {}", b.mantissa_max_bit_len(), a.p));
                            }
                            Ok(c)
                        })();
                        w.sub(ok.map_err(|e| format!("{} result {}", e, text(&b))), ctx);
                        if b.mantissa_max_bit_len().unwrap_or(0) > 5 * WB {
                            big.fetch_add(1, Relaxed);
                        } else if insert(&b) && !last {
                            out.push(b);
                        }
                    }
                }
                if !out.is_empty() {
                    found.lock().unwrap().append(&mut out);
                }
            },
        );
        dropped += big.load(SeqCst);
        let mut f: Vec<(String, BigFloat)> = found.into_inner().unwrap().into_iter().map(|b| (text(&b), b)).collect();
        f.sort_by(|a, b| a.0.cmp(&b.0));
        frontier = f.into_iter().map(|b| b.1).collect();
    }
    let states: usize = seen.iter().map(|s| s.lock().unwrap().len()).sum();
    let tr = transitions.load(SeqCst);
    let mut ex = r.extra.lock().unwrap();
    ex.insert("states".into(), (states as u64).into());
    ex.insert("states_expanded".into(), expanded.into());
    ex.insert("transitions".into(), tr.into());
    ex.insert("traces_validated_against_impl".into(), tr.into());
    ex.insert("results_beyond_size_bound_not_expanded".into(), dropped.into());
    ex.insert("depth".into(), (plan.len() as u64).into());
    let _ = index;
}
