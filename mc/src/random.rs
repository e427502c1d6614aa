//! Random numbers, with the outputs of the generator chosen by the explorer.
use crate::oracle::{EMAX, EMIN};
use crate::oracle::show;
use crate::core::*;
use crate::edges::canon;
use astro_float_num::{BigFloat, Error, Exponent, Sign};
use rand::rngs::script;
use std::num::FpCategory;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Scripted;

impl Scripted {
    fn new(w: &[u64]) -> Self {
        script::set(w);
        Scripted
    }
}

impl Drop for Scripted {
    fn drop(&mut self) {
        script::clear();
    }
}

fn check(x: &BigFloat, p: usize, from: i64, to: i64) -> Result<bool, String> {
    let words = (p + 63) / 64;
    let (m, n, _, e, i) = match x.as_raw_parts() {
        Some(v) => v,
        None => return Err(format!("not a number: {} {:?}", show(x), x.err())),
    };
    canon(x)?;
    if m.len() != words || n != words * 64 {
        return Err(format!("length {} words, {} bits: {}", m.len(), n, show(x)));
    }
    if m[words - 1] >> 63 != 1 || x.is_zero() || x.is_subnormal() || x.classify() != FpCategory::Normal {
        return Err(format!("not normal: {}", show(x)));
    }
    if i {
        return Err(format!("marked inexact: {}", show(x)));
    }
    let e = e as i64;
    if from <= to && (e < from || e > to) {
        return Err(format!("exponent {} is out of limits: {}", e, show(x)));
    }
    Ok(true)
}

pub fn c31(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one generated number for one sequence of generator outputs with every attribute checked; nontrivial = a number was generated".into();
    let out: &[u64] = &[0, 1, 2, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 0xaaaa_aaaa_5555_5555];
    let lim: Vec<(i64, i64)> = {
        let a = [EMIN, EMIN + 1, -64, -1, 0, 1, 5, 64, EMAX - 1, EMAX];
        let mut v = vec![];
        for f in a {
            for t in a {
                v.push((f, t));
            }
        }
        for d in 1..8 {
            v.push((-3, -3 + d));
        }
        v
    };
    let draws = AtomicUsize::new(0);
    let none = AtomicUsize::new(0);
    // every sequence of outputs
    for words in 1..=r.t(3usize, 5) {
        let len = words + 3;
        let ps: Vec<usize> = if r.quick() { vec![words * 64] } else { vec![words * 64 - 63, words * 64 - 1, words * 64] };
        let lim: Vec<(i64, i64)> = match words {
            1 | 2 => lim.clone(),
            3 => lim.iter().step_by(r.t(4, 1)).copied().collect(),
            4 => lim.iter().step_by(r.t(31, 5)).copied().collect(),
            _ => lim.iter().step_by(53).copied().collect(),
        };
        let inner = out.len().pow((len - 1) as u32);
        r.space(
            &format!("outputs-{}w", words),
            &[ps.len(), lim.len(), out.len()],
            |i| format!("p={} limits={:?} outputs={:x}..", ps[i[0]], lim[i[1]], out[i[2]]),
            |i, w| {
                let (f, t) = lim[i[1]];
                let mut s = vec![0u64; len];
                s[0] = out[i[2]];
                for k in 0..inner {
                    let mut q = k;
                    for v in s[1..].iter_mut() {
                        *v = out[q % out.len()];
                        q /= out.len();
                    }
                    let (x, d) = {
                        let _g = Scripted::new(&s);
                        let x = BigFloat::random_normal(ps[i[0]], f as Exponent, t as Exponent);
                        (x, script::clear())
                    };
                    draws.fetch_max(d, SeqCst);
                    if d == 0 {
                        none.fetch_add(1, SeqCst);
                    }
                    w.sub(check(&x, ps[i[0]], f, t), || format!("outputs {:x?}", s));
                }
            },
        );
    }
    // every precision
    let np = r.t(700usize, 3000);
    r.space(
        "precisions",
        &[np, lim.len()],
        |i| format!("p={} limits={:?}", i[0] + 1, lim[i[1]]),
        |i, w| {
            let p = i[0] + 1;
            let (f, t) = lim[i[1]];
            for (k, o) in out.iter().enumerate() {
                // one output for all the words, another one for the exponent and the sign
                for o2 in [out[0], out[3], out[4], out[(k + 1) % out.len()]] {
                    let mut s = vec![*o; (p + 63) / 64];
                    s.extend([o2, o2, o2]);
                    let _g = Scripted::new(&s);
                    let x = BigFloat::random_normal(p, f as Exponent, t as Exponent);
                    w.sub(check(&x, p, f, t), || format!("outputs {:x} {:x}", o, o2));
                }
            }
        },
    );
    // every exponent of small ranges, both signs: the generator decides, nothing else
    let nr = r.t(300usize, 4000);
    let base = [EMIN, -7, 0, EMAX - 4000];
    r.space(
        "exponents",
        &[base.len(), nr],
        |i| format!("from={} range={}", base[i[0]], i[1]),
        |i, w| {
            let (f, t) = (base[i[0]], base[i[0]] + i[1] as i64);
            let (mut pos, mut neg) = (false, false);
            for k in 0..(2 * i[1] as u64 + 3) {
                for g in [k, k << 1 | 1, u64::MAX - k, (1 << 63) + k, k << 32, k << 40] {
                    let _g = Scripted::new(&[g, g, g, g]);
                    let x = BigFloat::random_normal(64, f as Exponent, t as Exponent);
                    pos |= x.sign() == Some(Sign::Pos);
                    neg |= x.sign() == Some(Sign::Neg);
                    w.sub(check(&x, 64, f, t), || format!("outputs {:x}", g));
                }
            }
            if !(pos && neg) {
                w.fail(format!("only one sign is generated: positive {} negative {}", pos, neg));
            }
        },
    );
    // unusable precisions
    let bad: Vec<usize> = vec![0, usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64, usize::MAX / 2, usize::MAX / 2 + 1, isize::MAX as usize - 63];
    r.space(
        "unusable-precisions",
        &[bad.len(), lim.len()],
        |i| format!("p={} limits={:?}", bad[i[0]], lim[i[1]]),
        |i, w| {
            let (f, t) = lim[i[1]];
            let _g = Scripted::new(&[0]);
            let x = BigFloat::random_normal(bad[i[0]], f as Exponent, t as Exponent);
            let ok = x.is_nan() && x.err() == Some(Error::InvalidArgument);
            w.sub(if ok { Ok(false) } else { Err(format!("{} {:?}", show(&x), x.err())) }, String::new);
        },
    );
    let mut e = r.extra.lock().unwrap();
    e.insert("most generator outputs used by one number of up to four words".into(), draws.load(SeqCst).into());
    e.insert("numbers that used no generator output".into(), none.load(SeqCst).into());
}
