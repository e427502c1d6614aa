//! Transcendental functions against MPFR: C17, C18, C19, C20.
use crate::alpha::*;
use crate::edges::sgn;
use crate::core::*;
use crate::oracle::*;
use astro_float_num::{BigFloat, Consts, Exponent, RoundingMode as RM};
use gmp_mpfr_sys::mpfr;
use rug::{Float, Integer};
use std::cmp::Ordering;
use std::ffi::c_int;

pub type MF = unsafe extern "C" fn(*mut mpfr::mpfr_t, *const mpfr::mpfr_t, mpfr::rnd_t) -> c_int;
pub type LF = fn(&BigFloat, usize, RM, &mut Consts) -> BigFloat;

pub struct Fun {
    pub name: &'static str,
    pub mf: MF,
    pub lf: LF,
    pub inv: MF,
}

macro_rules! fun {
    ($n:literal, $m:ident, $l:ident, $i:ident) => {
        Fun { name: $n, mf: mpfr::$m, lf: |x, p, rm, cc| x.$l(p, rm, cc), inv: mpfr::$i }
    };
}

pub const EXP: Fun = fun!("exp", exp, exp, log);
pub const LN: Fun = fun!("ln", log, ln, exp);
pub const LOG2: Fun = fun!("log2", log2, log2, exp2);
pub const LOG10: Fun = fun!("log10", log10, log10, exp10);
pub const SIN: Fun = fun!("sin", sin, sin, asin);
pub const COS: Fun = fun!("cos", cos, cos, acos);
pub const TAN: Fun = fun!("tan", tan, tan, atan);
pub const ASIN: Fun = fun!("asin", asin, asin, sin);
pub const ACOS: Fun = fun!("acos", acos, acos, cos);
pub const ATAN: Fun = fun!("atan", atan, atan, tan);
pub const SINH: Fun = fun!("sinh", sinh, sinh, asinh);
pub const COSH: Fun = fun!("cosh", cosh, cosh, acosh);
pub const TANH: Fun = fun!("tanh", tanh, tanh, atanh);
pub const ASINH: Fun = fun!("asinh", asinh, asinh, sinh);
pub const ACOSH: Fun = fun!("acosh", acosh, acosh, cosh);
pub const ATANH: Fun = fun!("atanh", atanh, atanh, tanh);

pub fn to_float(d: &Dy) -> Float {
    let prec = (d.m.significant_bits()).max(2);
    let mut f = Float::new(prec);
    let s = d.signed();
    unsafe {
        mpfr::set_z_2exp(f.as_raw_mut(), s.as_raw(), d.e as _, mpfr::rnd_t::RNDZ);
    }
    f
}

/// finite float -> dyadic
pub fn from_float(f: &Float) -> Dy {
    if f.is_zero() {
        return Dy { neg: f.is_sign_negative(), m: Integer::new(), e: 0 };
    }
    let mut z = Integer::new();
    let e = unsafe { mpfr::get_z_2exp(z.as_raw_mut(), f.as_raw()) };
    Dy { neg: z < 0, m: z.abs(), e: e as i64 }
}

/// A real number known as a truncated dyadic plus a sticky mark, or not a finite number.
#[derive(Clone, Debug)]
pub enum Ref {
    Nan,
    Inf(bool),
    Num { neg: bool, m: Integer, e: i64, sticky: bool },
}

pub fn reff(f: &Float, tern: c_int) -> Ref {
    if f.is_nan() {
        return Ref::Nan;
    }
    if f.is_infinite() {
        return Ref::Inf(f.is_sign_negative());
    }
    let mut d = from_float(f);
    if d.m == 0 {
        // an underflow of MPFR's own range
        d.e = EMIN - (1 << 40);
    }
    Ref::Num { neg: d.neg, m: d.m, e: d.e, sticky: tern != 0 }
}

pub fn mpfr1(f: MF, x: &Float, prec: usize) -> Ref {
    let mut r = Float::new(prec as u32);
    let t = unsafe { f(r.as_raw_mut(), x.as_raw(), mpfr::rnd_t::RNDZ) };
    reff(&r, t)
}

/// Compare a library result with the reference. Skipped rounding may be off by one unit in the last place.
pub fn check_ref(r: &BigFloat, x: &Ref, p: usize, rm: RM, argflag: bool, cmp: Cmp) -> Result<bool, String> {
    match x {
        Ref::Nan => {
            if is_err(r, &["invalid"]) {
                Ok(false)
            } else {
                Err(format!("got {} want NaN(InvalidArgument)", show(r)))
            }
        }
        Ref::Inf(neg) => {
            if (*neg && r.is_inf_neg()) || (!*neg && r.is_inf_pos()) {
                Ok(false)
            } else {
                Err(format!("got {} want {}Inf", show(r), if *neg { "-" } else { "" }))
            }
        }
        Ref::Num { neg, m, e, sticky } => {
            let c = check(r, *neg, m, *e, *sticky, p, rm, argflag, cmp);
            if rm == RM::None && c.is_err() {
                let a = round_ref(*neg, m, *e, *sticky, p, RM::ToZero);
                if let (Val::Num { words, e: ae, inexact, .. }, Some(d)) = (a, decode(r)) {
                    let w = r.mantissa_digits().unwrap().len();
                    let lsb = ae - p as i64;
                    let q = from_words(&words);
                    if w * WB == p && *inexact_ok(&inexact, &r.inexact()) && q != 0 {
                        let t = Dy::new(*neg, q, lsb);
                        let diff = t.add(&d.neg());
                        if diff.is_zero() || (diff.top() <= lsb + 1 && diff.abs_cmp(&Dy::new(false, Integer::from(1), lsb)) != Ordering::Greater) {
                            return Ok(true);
                        }
                    }
                }
            }
            c
        }
    }
}

fn inexact_ok<'a>(want: &'a bool, got: &bool) -> &'a bool {
    if *want && !*got {
        &false
    } else {
        &true
    }
}

pub fn fun_case(f: &Fun, x: &BigFloat, ps: &[usize], rms: &[RM], w: &mut W) {
    let d = dy(x);
    let fx = to_float(&d);
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        let rf = mpfr1(f.mf, &fx, rp(p) + 16);
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            let y = (f.lf)(x, p, rm, &mut w.cc);
            let c = check_ref(&y, &rf, rp(p), rm, x.inexact(), STRICT);
            w.sub(c, || format!("{}({}) p={} {:?}", f.name, show(x), p, rm));
        }
    }
}

/// x rounded to nearest at q bits (q a multiple of the word size)
pub fn near(f: &Float, q: usize) -> Option<BigFloat> {
    let g = Float::with_val(q as u32, f);
    if !g.is_finite() || g.is_zero() {
        return None;
    }
    let d = from_float(&g);
    if d.top() > EMAX || d.top() < EMIN {
        return None;
    }
    Some(encode(&d, q))
}

/// next number of the same precision by magnitude: k units in the last place away
pub fn ulps(x: &BigFloat, k: i64) -> Option<BigFloat> {
    let d = dy(x);
    let p = x.mantissa_digits().unwrap().len() * WB;
    let m = Integer::from(&d.m + k);
    if m <= 0 || m.significant_bits() as usize > p {
        return None;
    }
    let d = Dy::new(d.neg, m, d.e);
    if d.top() > EMAX || d.top() < EMIN {
        return None;
    }
    Some(encode(&d, p))
}

/// short targets around which results are hard to round: p-bit numbers and p+1-bit midpoints
pub fn targets(p: usize, n: usize, es: &[i64]) -> Vec<Dy> {
    let mut v = vec![];
    let one = Integer::from(1);
    let mut ms: Vec<Integer> = vec![
        one.clone(),
        Integer::from(3),
        Integer::from(5),
        Integer::from(&one << (p as u32)) + 1,           // 1 + half unit
        (Integer::from(&one << (p as u32 + 1))) - 1,     // 2 - half unit
        (Integer::from(&one << (p as u32))) - 1,         // 2 - one unit
        (Integer::from(&one << (p as u32 - 1))) + 1,     // 1 + one unit
        from_words(&pattern(3, p / WB)),                 // mixed digits
        Integer::from(from_words(&pattern(3, p / WB)) << 1) + 1, // mixed midpoint
        from_words(&pattern(9, p / WB)) << 1u32 | 1,
        Integer::from(7),
        Integer::from(&one << (p as u32)) + 3,
        Integer::from(0xffff),
        Integer::from(10),
    ];
    ms.truncate(n);
    for m in ms {
        let b = m.significant_bits() as i64;
        for &e in es {
            // top exponent e
            v.push(Dy::new(false, m.clone(), e - b));
        }
    }
    v
}

pub struct Plan {
    pub f: Fun,
    /// exponents of the plain alphabet
    pub es: Vec<Exponent>,
    pub signs: usize,
    /// exponents of inverse targets
    pub tes: Vec<i64>,
    /// extra points (precise to many bits) near which arguments are placed
    pub points: Vec<Float>,
    /// exponents for tiny / huge arguments
    pub far: Vec<Exponent>,
}

pub const TRP: [usize; 3] = [64, 128, 320];

pub fn run_plan(r: &Run, pl: &Plan) {
    let f = &pl.f;
    let n = f.name;
    let m = r.t(mants(14, (8, 8), (3, 4, 4), (0, 0, 0, 0)), mants(14, (14, 14), (8, 8, 8), (3, 4, 4, 4)));
    let m = nums(&m, 0);
    let ps: Vec<usize> = r.t(vec![64, 128, 192], vec![64, 128, 192, 256, 320, 448]);
    r.space(
        &format!("{}-values", n),
        &[m.len(), pl.es.len(), pl.signs],
        |i| format!("m={} e={} neg={}", show(&m[i[0]]), pl.es[i[1]], i[2]),
        |i, w| {
            let x = sgn(&with_exp(&m[i[0]], pl.es[i[1]]), i[2] == 1);
            let (a, b) = if r.quick() { (i[0] % ps.len(), 1) } else { (0, ps.len()) };
            fun_case(f, &x, &ps[a..a + b], &RMS, w);
        },
    );
    // results next to a representable value or to a midpoint
    let ps: Vec<usize> = r.t(vec![64, 128, 256], vec![64, 128, 192, 256, 512, 1024]);
    let qs = [0usize, 64, 128, 192, 320];
    let tn = r.t(10, 14);
    r.space(
        &format!("{}-hard", n),
        &[ps.len(), qs.len(), tn, pl.tes.len(), pl.signs],
        |i| format!("p={} extra={} target={} texp={} neg={}", ps[i[0]], qs[i[1]], i[2], pl.tes[i[3]], i[4]),
        |i, w| {
            let p = ps[i[0]];
            let q = p + qs[i[1]];
            let t = targets(p, tn, &pl.tes)[i[2] * pl.tes.len() + i[3]].clone();
            let t = if i[4] == 1 { t.neg() } else { t };
            let ft = to_float(&t);
            let mut x = Float::new(q as u32 + 64);
            unsafe {
                (f.inv)(x.as_raw_mut(), ft.as_raw(), mpfr::rnd_t::RNDN);
            }
            let x = match near(&x, q) {
                Some(x) => x,
                None => return,
            };
            for k in [0, -1, 1] {
                if k != 0 && i[1] != 1 && r.quick() {
                    continue;
                }
                if let Some(x) = ulps(&x, k) {
                    fun_case(f, &x, &[p], &RMS, w);
                }
            }
        },
    );
    // arguments next to special points
    let qs: Vec<usize> = r.t(vec![64, 128, 192, 320], vec![64, 128, 192, 256, 320, 448, 640, 1024]);
    let ks: [i64; 7] = [0, -1, 1, -2, 2, -3, 3];
    r.space(
        &format!("{}-points", n),
        &[pl.points.len(), qs.len(), ks.len(), pl.signs],
        |i| format!("point={:.20} q={} ulps={} neg={}", pl.points[i[0]], qs[i[1]], ks[i[2]], i[3]),
        |i, w| {
            if let Some(x) = near(&pl.points[i[0]], qs[i[1]]).and_then(|x| ulps(&x, ks[i[2]])) {
                fun_case(f, &sgn(&x, i[3] == 1), &TRP[..r.t(2, 3)], &RMS, w);
            }
        },
    );
    // the special point itself, rounded to every number of words, with precisions that grow along
    let qs: Vec<usize> = (1..=r.t(12, 28)).map(|l| l * WB).collect();
    r.space(
        &format!("{}-points-grow", n),
        &[pl.points.len(), qs.len(), 3],
        |i| format!("point={:.20} q={} extra={}", pl.points[i[0]], qs[i[1]], [0, 64, 512][i[2]]),
        |i, w| {
            if let Some(x) = near(&pl.points[i[0]], qs[i[1]]) {
                let p = qs[i[1]] + [0, 64, 512][i[2]];
                fun_case(f, &sgn(&x, pl.signs > 1 && (i[0] + i[1]) % 2 == 1), &[p], r.t(&RMS[i[2]..i[2] + 2], &RMS[..]), w);
            }
        },
    );
    // arguments much longer than the result
    let ll: Vec<usize> = r.t(vec![4, 5, 6, 7, 8, 10, 12, 16, 17, 24, 32, 33, 40, 64], (4..=40).chain([48, 64, 72, 100, 142, 222]).collect());
    let le: Vec<Exponent> = pl.es.iter().copied().step_by(r.t((pl.es.len() / 4).max(1), 1)).collect();
    r.space(
        &format!("{}-long-args", n),
        &[ll.len(), r.t(3, 6), le.len()],
        |i| format!("len={} kind={} e={}", ll[i[0]], i[1], le[i[2]]),
        |i, w| {
            let x = sgn(&mk(&pattern([3, 2, 1, 0, 4, 5][i[1]], ll[i[0]]), false, le[i[2]]), pl.signs > 1 && (i[0] + i[2]) % 2 == 1);
            fun_case(f, &x, &[[64, 65, 1, 100, 128, 63][(i[0] + i[1]) % 6]], r.t(&[RM::ToEven, RM::Down], &RMS[..]), w);
        },
    );
    // tiny and huge arguments
    let fm = nums(&r.t(mants(4, (2, 2), (0, 0, 0), (0, 0, 0, 0)), mants(8, (3, 3), (2, 2, 2), (0, 0, 0, 0))), 0);
    r.space(
        &format!("{}-far", n),
        &[fm.len(), pl.far.len(), pl.signs],
        |i| format!("m={} e={} neg={}", show(&fm[i[0]]), pl.far[i[1]], i[2]),
        |i, w| {
            let x = sgn(&with_exp(&fm[i[0]], pl.far[i[1]]), i[2] == 1);
            fun_case(f, &x, &[64, 128, 320], &RMS, w);
        },
    );
    // precisions: every number of words up to a bound, then some sizes
    let lens: Vec<usize> = r.t((1..=64).chain([80, 96, 128, 160, 200]).collect(), (1..=160).chain([200, 256, 320, 400, 512]).collect());
    let xe: Vec<i64> = pl.tes.iter().copied().take(3).collect();
    r.space(
        &format!("{}-precisions", n),
        &[lens.len(), 3, xe.len(), r.t(1, 2)],
        |i| format!("len={} kind={} texp={} longer={}", lens[i[0]], i[1], xe[i[2]], i[3]),
        |i, w| {
            let p = lens[i[0]] * WB;
            let q = if i[3] == 1 { p + 128 } else { p };
            let t = match i[1] {
                0 => Dy::new(false, from_words(&pattern(3, lens[i[0]])), xe[i[2]] - p as i64),
                1 => Dy::new(false, Integer::from(3), xe[i[2]] - 2),
                _ => Dy::new(false, (Integer::from(1) << (p as u32)) + 1, xe[i[2]] - p as i64 - 1),
            };
            let mut x = Float::new(q as u32 + 64);
            unsafe {
                (f.inv)(x.as_raw_mut(), to_float(&t).as_raw(), mpfr::rnd_t::RNDN);
            }
            if let Some(x) = near(&x, q) {
                fun_case(f, &x, &[p], &[RM::ToEven, RM::Up, RM::Down], w);
            }
        },
    );
}

fn far_tiny() -> Vec<Exponent> {
    let mut v: Vec<i64> = vec![-20, -21, -22, -30, -31, -32, -33, -34];
    for b in [64i64, 128, 192, 256, 320, 384, 448] {
        for d in -4..=4 {
            v.push(-b / 2 + d);
            v.push(-b / 3 + d);
            v.push(-b + d);
        }
    }
    v.extend([-500, -640, -700, -1000, -1500, -5000, -100_000, -1_000_000_000, EMIN / 2 - 1, EMIN / 2, EMIN / 2 + 1, EMIN / 3, EMIN + 1000, EMIN + 65, EMIN + 64, EMIN + 1, EMIN]);
    v.extend(crate::arith::all_exps().into_iter().filter(|e| *e < -20));
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as Exponent).collect()
}

fn pis(n: u32, dens: &[u32]) -> Vec<Float> {
    let pi = Float::with_val(4096, rug::float::Constant::Pi);
    let mut v = vec![];
    for d in dens {
        for k in 1..=n {
            v.push(Float::with_val(4096, &pi * k) / *d);
        }
    }
    for k in [1000u32, 12345, 1_000_003, 1 << 20, 1 << 31] {
        v.push(Float::with_val(4096, &pi * k) / 2u32);
        v.push(Float::with_val(4096, &pi * k) * (1u64 << 60));
    }
    v
}

/// one plus or minus 2^-k for many k, and small integers
fn ones(k_max: u32) -> Vec<Float> {
    let mut v = vec![];
    for k in (1..=k_max).step_by(7).chain([63, 64, 65, 127, 128, 129, 191, 192]) {
        let d = Float::with_val(2048, 1) >> k;
        v.push(Float::with_val(2048, 1) + &d);
        v.push(Float::with_val(2048, 1) - &d);
    }
    v.push(Float::with_val(2048, 1));
    for n in 2..=40u32 {
        v.push(Float::with_val(2048, n));
    }
    v
}

fn powers(b: u32, n: u32) -> Vec<Float> {
    (1..=n).map(|k| Float::with_val(2048, Integer::from(Integer::u_pow_u(b, k)))).collect()
}

fn unit_interval() -> Vec<Float> {
    // 1 - 2^-k and 2^-k, 1/2, 1/4, 3/4
    let mut v = vec![];
    for k in (1..=330u32).step_by(9).chain([63, 64, 65, 66, 127, 128, 129, 130, 192]) {
        let d = Float::with_val(2048, 1) >> k;
        v.push(Float::with_val(2048, 1) - &d);
        v.push(d);
    }
    v.push(Float::with_val(2048, 1));
    v.push(Float::with_val(2048, 0.75));
    v
}

fn ln2s() -> Vec<Float> {
    let l = Float::with_val(4096, rug::float::Constant::Log2);
    let mut v: Vec<Float> = (1..=12u32).map(|k| Float::with_val(4096, &l * k)).collect();
    for k in [100u32, 1000, 1 << 20, (1 << 31) - 1, 1 << 31, (1u32 << 31) + 64, (1u32 << 31) + 100] {
        v.push(Float::with_val(4096, &l * k));
    }
    v
}

fn range(a: i32, b: i32) -> Vec<Exponent> {
    (a..=b).collect()
}

/// large exponents of every magnitude, at most 2^k
fn far_big(k: u32) -> Vec<Exponent> {
    crate::arith::all_exps().into_iter().filter(|e| *e > 12 && *e <= 1i64 << k).map(|e| e as Exponent).collect()
}

pub fn c17(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one call of exp/ln/log2/log10/log/pow/powi compared with the MPFR value rounded once; nontrivial = the exact result is not representable".into();
    let mut far = far_tiny();
    let tiny = far.clone();
    far.extend([26, 27, 28, 29, 30, 31, 32, 33, 34, 63, 64, 65, 66, 1000, 1_000_000_000, EMAX as Exponent]);
    far.extend(far_big(31));
    run_plan(r, &Plan { f: EXP, es: range(-9, 12), signs: 2, tes: vec![1, 0, 3, -2, 64, -63, 1000, -1000], points: ln2s(), far });
    let lnfar: Vec<Exponent> = tiny.iter().copied().chain([40, 64, 65, 1000, 1_000_000, 1_000_000_000, EMAX as Exponent - 1, EMAX as Exponent]).chain(far_big(31)).collect();
    let mut pts = ones(300);
    run_plan(r, &Plan { f: LN, es: range(-6, 7), signs: 2, tes: vec![1, 0, 3, -2, 6, -20, 12, 20], points: pts.clone(), far: lnfar.clone() });
    pts.extend(powers(2, 40).into_iter().map(|x| x + 1u32));
    run_plan(r, &Plan { f: LOG2, es: range(-6, 7), signs: 2, tes: vec![1, 0, 3, -2, 6, -20, 12, 20], points: pts.clone(), far: lnfar.clone() });
    pts.extend(powers(10, 30));
    run_plan(r, &Plan { f: LOG10, es: range(-6, 7), signs: 2, tes: vec![1, 0, 3, -2, 6, -20, 10], points: pts, far: lnfar });
    pow_spaces(r);
    log_spaces(r);
}

pub fn c18(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one call of sin/cos/tan/asin/acos/atan compared with the MPFR value rounded once; nontrivial = the exact result is not representable".into();
    let tiny = far_tiny();
    let big: Vec<Exponent> = tiny.iter().copied().chain([20, 31, 32, 33, 62, 63, 64, 65, 127, 128, 200, 512, 1000, 4096, 20000]).chain(far_big(13)).collect();
    let p = pis(r.t(12, 48), &[1, 2, 4, 3, 6]);
    run_plan(r, &Plan { f: SIN, es: range(-6, 12), signs: 2, tes: vec![0, -1, -3, -20, -40], points: p.clone(), far: big.clone() });
    run_plan(r, &Plan { f: COS, es: range(-6, 12), signs: 2, tes: vec![0, -1, -3, -20, -40], points: p.clone(), far: big.clone() });
    run_plan(r, &Plan { f: TAN, es: range(-6, 12), signs: 2, tes: vec![0, -1, 1, 4, -3, -20, 30], points: p, far: big });
    let inv: Vec<Exponent> = tiny.iter().copied().chain([1, 2, 3, 100]).collect();
    let u = unit_interval();
    run_plan(r, &Plan { f: ASIN, es: range(-8, 1), signs: 2, tes: vec![0, -1, 1, -3, -20], points: u.clone(), far: inv.clone() });
    run_plan(r, &Plan { f: ACOS, es: range(-8, 1), signs: 2, tes: vec![0, -1, 1, 2, -3, -20, -32], points: u.clone(), far: inv });
    let fa: Vec<Exponent> = tiny.iter().copied().chain(tiny.iter().filter(|x| **x > -1_500_000_000).map(|x| -x)).chain([EMAX as Exponent]).collect();
    run_plan(r, &Plan { f: ATAN, es: range(-8, 10), signs: 2, tes: vec![0, -1, 1, -3, -20], points: ones(300), far: fa });
}

pub fn c19(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one call of sinh/cosh/tanh/asinh/acosh/atanh compared with the MPFR value rounded once; nontrivial = the exact result is not representable".into();
    let tiny = far_tiny();
    let big: Vec<Exponent> = tiny.iter().copied().chain([5, 6, 7, 8, 9, 10, 20, 29, 30, 31, 32, 33, 64, 65, 1000, 1_000_000_000, EMAX as Exponent]).chain(far_big(31)).collect();
    let l = ln2s();
    run_plan(r, &Plan { f: SINH, es: range(-8, 10), signs: 2, tes: vec![0, 1, 3, -1, 20, -20, 64, 200], points: l.clone(), far: big.clone() });
    run_plan(r, &Plan { f: COSH, es: range(-8, 10), signs: 2, tes: vec![1, 2, 3, 20, 64, 200], points: l.clone(), far: big.clone() });
    run_plan(r, &Plan { f: TANH, es: range(-8, 10), signs: 2, tes: vec![0, -1, -3, -20], points: l, far: big });
    let both: Vec<Exponent> = tiny.iter().copied().chain(tiny.iter().filter(|x| **x > -1_500_000_000).map(|x| -x)).chain([EMAX as Exponent]).collect();
    run_plan(r, &Plan { f: ASINH, es: range(-8, 10), signs: 2, tes: vec![0, 1, 3, -1, 7, -20], points: ones(300), far: both.clone() });
    run_plan(r, &Plan { f: ACOSH, es: range(-1, 12), signs: 2, tes: vec![0, 1, 3, -1, 7, -20, -30], points: ones(300), far: both });
    let inv: Vec<Exponent> = tiny.iter().copied().chain([1, 2, 3, 100]).collect();
    run_plan(r, &Plan { f: ATANH, es: range(-8, 1), signs: 2, tes: vec![0, 1, 3, -1, 5, -20], points: unit_interval(), far: inv });
}

// ---------------------------------------------------------------- pow, log base b

fn mpfr_pow(x: &Float, y: &Float, prec: usize) -> Ref {
    let mut r = Float::new(prec as u32);
    let t = unsafe { mpfr::pow(r.as_raw_mut(), x.as_raw(), y.as_raw(), mpfr::rnd_t::RNDZ) };
    reff(&r, t)
}

pub fn pow_case(x: &BigFloat, y: &BigFloat, ps: &[usize], rms: &[RM], w: &mut W) {
    let (fx, fy) = (to_float(&dy(x)), to_float(&dy(y)));
    for &p in ps {
        let rf = mpfr_pow(&fx, &fy, rp(p) + 16);
        for &rm in rms {
            let z = x.pow(y, p, rm, &mut w.cc);
            let c = check_ref(&z, &rf, rp(p), rm, x.inexact() || y.inexact(), STRICT);
            w.sub(c, || format!("pow({}, {}) p={} {:?}", show(x), show(y), p, rm));
        }
    }
}

/// dyadics num / 2^den
fn dyad(n: i64, sh: i64) -> BigFloat {
    encode(&Dy { neg: n < 0, m: Integer::from(n).abs(), e: -sh }, 64)
}

fn pow_spaces(r: &Run) {
    // small dyadic bases and exponents: many exact results
    let bases: Vec<BigFloat> = {
        let mut v = vec![];
        for n in r.t(1..=40i64, 1..=260i64) {
            for s in [0i64, 1, 2, 4] {
                if n % 2 == 1 || s == 0 {
                    v.push(dyad(n, s));
                }
            }
        }
        for e in [1i64, 60, 64, 128, 1 << 20, 1 << 30, -1 << 30, -(1 << 20), 100] {
            v.push(with_exp(&dyad(1, 0), e as Exponent));
            v.push(with_exp(&dyad(9, 0), e as Exponent));
            v.push(with_exp(&dyad(16, 0), e as Exponent));
        }
        // perfect powers with long mantissas
        for k in [2u32, 4, 8] {
            let mut m = Integer::from(1);
            for _ in 0..k {
                m *= Integer::from(0x8000_0001u64);
            }
            v.push(encode(&Dy::new(false, m, 0), 320));
        }
        v
    };
    let exps: Vec<BigFloat> = {
        let mut v = vec![];
        for n in 1..=r.t(12i64, 40) {
            for s in [0i64, 1, 2, 3, 5] {
                if n % 2 == 1 || s == 0 {
                    v.push(dyad(n, s));
                    v.push(dyad(-n, s));
                }
            }
        }
        for n in [31i64, 32, 63, 64, 65, 100, 127, 128, 129, 1000] {
            v.push(dyad(n, 0));
            v.push(dyad(-n, 0));
        }
        v
    };
    r.space(
        "pow-exact",
        &[bases.len(), exps.len(), 2],
        |i| format!("x={} y={} neg={}", show(&bases[i[0]]), show(&exps[i[1]]), i[2]),
        |i, w| {
            let x = sgn(&bases[i[0]], i[2] == 1);
            pow_case(&x, &exps[i[1]], &[64, 128][..r.t(1 + (i[0] + i[1]) % 2, 2)], &RMS, w);
        },
    );
    let m = r.t(mants(7, (3, 4), (0, 0, 0), (0, 0, 0, 0)), mants(14, (6, 6), (2, 3, 3), (0, 0, 0, 0)));
    let m = nums(&m, 0);
    let es: Vec<Exponent> = vec![-2, -1, 0, 1, 2, 5];
    r.space(
        "pow-values",
        &[m.len(), es.len(), m.len(), es.len(), 2],
        |i| format!("x={} e={} y={} e={} neg={}", show(&m[i[0]]), es[i[1]], show(&m[i[2]]), es[i[3]], i[4]),
        |i, w| {
            let x = with_exp(&m[i[0]], es[i[1]]);
            let y = sgn(&with_exp(&m[i[2]], es[i[3]]), i[4] == 1);
            pow_case(&x, &y, &[[64, 128, 192][(i[0] + i[2]) % 3]], &RMS, w);
        },
    );
    // hard: y dyadic, x = nearest of t^(1/y)
    let ys: Vec<BigFloat> = [(3i64, 1i64), (5, 1), (1, 2), (-3, 1), (7, 3), (1, 1), (-1, 1), (3, 0), (-2, 0), (17, 0), (1, 20), (333, 0)].iter().map(|&(n, s)| dyad(n, s)).collect();
    let ps: Vec<usize> = r.t(vec![64, 128], vec![64, 128, 192, 320]);
    r.space(
        "pow-hard",
        &[ys.len(), ps.len(), 10, 4, 4],
        |i| format!("y={} p={} target={} extra={} texp={}", show(&ys[i[0]]), ps[i[1]], i[2], i[3] * 64, i[4]),
        |i, w| {
            let p = ps[i[1]];
            let q = p + 64 * i[3];
            let tes = [1i64, 0, 5, -3];
            let t = targets(p, 10, &tes)[i[2] * 4 + i[4]].clone();
            let fy = to_float(&dy(&ys[i[0]]));
            let inv = Float::with_val(q as u32 + 200, 1) / &fy;
            let ft = to_float(&t);
            let mut x = Float::new(q as u32 + 64);
            unsafe {
                mpfr::pow(x.as_raw_mut(), ft.as_raw(), inv.as_raw(), mpfr::rnd_t::RNDN);
            }
            if let Some(x) = near(&x, q) {
                for k in [0, -1, 1] {
                    if let Some(x) = ulps(&x, k) {
                        pow_case(&x, &ys[i[0]], &[p], &RMS, w);
                    }
                }
            }
        },
    );
    // limits of the exponent range, bases next to one
    let bx: Vec<BigFloat> = {
        let one = Float::with_val(600, 1);
        let mut v = vec![];
        for k in [1u32, 2, 10, 63, 64, 100, 127, 128, 200] {
            let d = Float::with_val(600, 1) >> k;
            let q = rp(k as usize + 2);
            v.push(near(&Float::with_val(600, &one + &d), q).unwrap());
            v.push(near(&Float::with_val(600, &one - &d), q).unwrap());
        }
        for e in [1i64, 2, EMAX, EMAX - 1, EMAX / 2, EMAX / 2 + 1, EMAX / 2 + 2, EMIN, EMIN + 1, EMIN / 2, EMIN / 2 + 1, EMIN / 2 - 1] {
            v.push(with_exp(&dyad(1, 0), e as Exponent));
            v.push(with_exp(&dyad(3, 0), e as Exponent));
            v.push(with_exp(&mk(&[MAX], false, 0), e as Exponent));
        }
        v
    };
    let by: Vec<BigFloat> = {
        let mut v = vec![];
        for n in [1i64, 2, 3, -1, -2, -3] {
            v.push(dyad(n, 0));
            v.push(dyad(n, 1));
            v.push(dyad(n, 5));
        }
        for e in [10i64, 30, 31, 32, 33, 34, 63, 64, 65, 66, 100, 130, -30, -31, -63, -64, -65, -100, -1000, EMIN, EMAX] {
            for s in [false, true] {
                v.push(sgn(&with_exp(&dyad(1, 0), e as Exponent), s));
                v.push(sgn(&with_exp(&dyad(3, 0), e as Exponent), s));
                v.push(sgn(&with_exp(&mk(&[MAX], false, 0), e as Exponent), s));
            }
        }
        v
    };
    r.space(
        "pow-limits",
        &[bx.len(), by.len()],
        |i| format!("x={} y={}", show(&bx[i[0]]), show(&by[i[1]])),
        |i, w| {
            pow_case(&bx[i[0]], &by[i[1]], &[64, 128], &RMS6, w);
        },
    );
    // every precision, with operands of other lengths
    let lens: Vec<usize> = r.t((1..=40).chain([48, 64, 71, 80]).collect(), (1..=80).chain([100, 142, 160]).collect());
    r.space(
        "pow-lengths",
        &[lens.len(), 4, 4, 4],
        |i| format!("p={} lx={} ly={} kind={}", lens[i[0]] * 64, i[1], i[2], i[3]),
        |i, w| {
            let l = lens[i[0]];
            let len = |j: usize| [1, l, l + 3, 2 * l + 1][j].min(l + 20);
            let x = mk(&pattern([3, 2, 1, 0][i[3]], len(i[1])), false, [0, 1, -3, 20][(i[1] + i[3]) % 4]);
            let y = mk(&pattern([2, 3, 0, 3][i[3]], len(i[2])), i[2] % 2 == 1, [1, -2, 5, 0][(i[2] + i[3]) % 4]);
            pow_case(&x, &y, &[l * 64], r.t(&RMS[(i[0] + i[1] + i[2]) % 6..][..1], &RMS[..]), w);
        },
    );
    // integer powers
    let mut ib: Vec<BigFloat> = bases.iter().step_by(r.t(5, 2)).cloned().collect();
    ib.extend(bx.iter().cloned());
    ib.extend(nums(&mants(14, (4, 4), (2, 2, 2), (0, 0, 0, 0)), 1));
    let ns: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 65537, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 40, (1 << 62) + 1, usize::MAX / 2, usize::MAX]).collect();
    r.space(
        "powi",
        &[ib.len(), ns.len(), 2],
        |i| format!("x={} n={} neg={}", show(&ib[i[0]]), ns[i[1]], i[2]),
        |i, w| {
            let x = sgn(&ib[i[0]], i[2] == 1);
            let fx = to_float(&dy(&x));
            let fy = Float::with_val(64, ns[i[1]] as u64);
            for p in [64, 192] {
                let rf = mpfr_pow(&fx, &fy, p + 16);
                for rm in RMS {
                    let z = x.powi(ns[i[1]], p, rm);
                    let c = check_ref(&z, &rf, p, rm, false, STRICT);
                    w.sub(c, || format!("powi({}, {}) p={} {:?}", show(&x), ns[i[1]], p, rm));
                }
            }
        },
    );
    r.space(
        "powi-lengths",
        &[lens.len(), 4, 4, 9],
        |i| format!("p={} lx={} kind={} n={}", lens[i[0]] * 64, i[1], i[2], i[3]),
        |i, w| {
            let l = lens[i[0]];
            let x = mk(&pattern([3, 2, 1, 0][i[2]], [1, l, l + 3, 2 * l + 1][i[1]]), i[0] % 2 == 1, [0, 1, -3, 20][(i[1] + i[2]) % 4]);
            let n = [2usize, 3, 5, 6, 7, 15, 100, 1023, 65537][i[3]];
            let rf = mpfr_pow(&to_float(&dy(&x)), &Float::with_val(64, n as u64), l * 64 + 16);
            for &rm in r.t(&RMS[(i[0] + i[1] + i[3]) % 6..][..1], &RMS[..]) {
                let c = check_ref(&x.powi(n, l * 64, rm), &rf, l * 64, rm, false, STRICT);
                w.sub(c, || format!("powi({}, {}) p={} {:?}", show(&x), n, l * 64, rm));
            }
        },
    );
}

/// log_b(x) exactly when it is a short dyadic
fn log_exact(x: &Dy, b: &Dy, approx: f64) -> Option<Dy> {
    for k in 0..=7u32 {
        let a = (approx * (1u64 << k) as f64).round();
        if a == 0.0 || a.abs() > 4000.0 {
            continue;
        }
        if x.m.significant_bits() > 800 || b.m.significant_bits() > 800 {
            return None;
        }
        // x^(2^k) == b^a
        let pw = |d: &Dy, n: u32| Dy { neg: false, m: Integer::from(rug::ops::Pow::pow(&d.m, n)), e: d.e * n as i64 };
        let l = pw(x, 1 << k);
        let rr = pw(b, a.abs() as u32);
        let eq = if a > 0.0 {
            l.cmp(&rr) == Ordering::Equal
        } else {
            l.mul(&rr).cmp(&Dy::int(1)) == Ordering::Equal
        };
        if eq {
            return Some(Dy { neg: a < 0.0, m: Integer::from(a.abs() as u64), e: -(k as i64) });
        }
    }
    None
}

fn ref_log(x: &BigFloat, b: &BigFloat, p: usize) -> Ref {
    let (dx, db) = (dy(x), dy(b));
    if dx.neg || db.neg {
        return Ref::Nan;
    }
    let one = Dy::int(1);
    if db.cmp(&one) == Ordering::Equal {
        return Ref::Nan;
    }
    let (fx, fb) = (to_float(&dx), to_float(&db));
    if dx.cmp(&one) == Ordering::Equal {
        return Ref::Num { neg: false, m: Integer::new(), e: 0, sticky: false };
    }
    // powers of two
    let p2 = |d: &Dy| if d.m.is_power_of_two() { Some(d.top() - 1) } else { None };
    if let (Some(a), Some(c)) = (p2(&dx), p2(&db)) {
        let (q, e, st) = crate::arith::quot(&Dy::int(a), &Dy::int(c), p + 16);
        return Ref::Num { neg: (a < 0) != (c < 0), m: q, e, sticky: st };
    }
    let l0 = Float::with_val(128, fx.ln_ref()) / Float::with_val(128, fb.ln_ref());
    if let Some(d) = log_exact(&dx, &db, l0.to_f64()) {
        return Ref::Num { neg: d.neg, m: d.m, e: d.e, sticky: false };
    }
    let mut w = p + 64;
    loop {
        // both logarithms truncated: |x| in [l, l + ulp]
        let lx = Float::with_val(w as u32, fx.ln_ref());
        let lb = Float::with_val(w as u32, fb.ln_ref());
        let q = lx / lb;
        // relative error below 2^(3 - w)
        let d = from_float(&q);
        let neg = d.neg;
        let m = Integer::from(&d.m << 4u32);
        let err = Integer::from(1) << (d.m.significant_bits() + 4 + 4).saturating_sub(w as u32);
        let lo = Integer::from(&m - &err);
        let hi = Integer::from(&m + &err);
        let sh = (hi.significant_bits() as i64 - (p as i64 + 16)).max(0) as u32;
        let (a, b) = (Integer::from(&lo >> sh), Integer::from(&hi >> sh));
        if a == b && sh > 0 {
            return Ref::Num { neg, m: a, e: d.e - 4 + sh as i64, sticky: true };
        }
        w += w / 2;
    }
}

pub fn log_case(x: &BigFloat, b: &BigFloat, ps: &[usize], rms: &[RM], w: &mut W) {
    for &p in ps {
        let rf = ref_log(x, b, rp(p));
        for &rm in rms {
            let z = x.log(b, p, rm, &mut w.cc);
            let c = match rf {
                Ref::Nan => {
                    if z.is_nan() {
                        Ok(false)
                    } else if dy(b).cmp(&Dy::int(1)) == Ordering::Equal && z.is_inf() {
                        Ok(false) // base one: a pole, reported as a division by zero
                    } else {
                        Err(format!("got {} want NaN", show(&z)))
                    }
                }
                _ => check_ref(&z, &rf, rp(p), rm, x.inexact() || b.inexact(), STRICT),
            };
            w.sub(c, || format!("log({}, base {}) p={} {:?}", show(x), show(b), p, rm));
        }
    }
}

fn log_spaces(r: &Run) {
    let v: Vec<BigFloat> = {
        let mut v = vec![];
        for n in 1..=r.t(36i64, 130) {
            v.push(dyad(n, 0));
        }
        for n in [1i64, 3, 5, 7, 9, 15, 25, 27, 81, 255, 257] {
            for s in [1, 2, 3, 4, 6, 8, 16] {
                v.push(dyad(n, s));
            }
        }
        for n in [64i64, 81, 125, 128, 216, 243, 256, 343, 512, 625, 729, 1000, 1024, 1296, 2187, 2401, 4096, 6561, 10000, 65536, 59049, 1 << 40] {
            v.push(dyad(n, 0));
        }
        for k in [64u32, 127, 128] {
            let d = Float::with_val(600, 1) >> k;
            v.push(near(&Float::with_val(600, 1 + &d), rp(k as usize + 2)).unwrap());
            v.push(near(&Float::with_val(600, 1 - &d), rp(k as usize + 2)).unwrap());
        }
        let mut m = Integer::from(0x8000_0001u64);
        for _ in 0..3 {
            v.push(encode(&Dy::new(false, m.clone(), -31), 512));
            m = Integer::from(&m * &m);
        }
        for e in [1000i64, 1 << 30, -(1 << 30), EMAX, EMIN] {
            v.push(with_exp(&dyad(1, 0), e as Exponent));
            v.push(with_exp(&dyad(3, 0), e as Exponent));
        }
        v.push(dyad(-2, 0));
        v.push(dyad(-1, 0));
        v
    };
    r.space(
        "log-base",
        &[v.len(), v.len()],
        |i| format!("x={} b={}", show(&v[i[0]]), show(&v[i[1]])),
        |i, w| {
            log_case(&v[i[0]], &v[i[1]], &[[64, 128][(i[0] + i[1]) % 2]], &RMS, w);
        },
    );
    let lens: Vec<usize> = r.t((1..=40).chain([48, 64, 71, 80]).collect(), (1..=80).chain([100, 142, 160]).collect());
    r.space(
        "log-base-lengths",
        &[lens.len(), 4, 4, 4],
        |i| format!("p={} lx={} lb={} kind={}", lens[i[0]] * 64, i[1], i[2], i[3]),
        |i, w| {
            let l = lens[i[0]];
            let len = |j: usize| [1, l, l + 3, 2 * l + 1][j].min(l + 20);
            let x = mk(&pattern([3, 2, 1, 0][i[3]], len(i[1])), false, [0, 1, -3, 20][(i[1] + i[3]) % 4]);
            let b = mk(&pattern([2, 3, 0, 3][i[3]], len(i[2])), false, [1, -2, 5, 2][(i[2] + i[3]) % 4]);
            log_case(&x, &b, &[l * 64], r.t(&RMS[(i[0] + i[1] + i[2]) % 6..][..1], &RMS[..]), w);
        },
    );
    let m = nums(&r.t(mants(5, (2, 3), (0, 0, 0), (0, 0, 0, 0)), mants(14, (6, 6), (0, 0, 0), (0, 0, 0, 0))), 0);
    let es: Vec<Exponent> = vec![-1, 0, 1, 2, 70];
    r.space(
        "log-base-values",
        &[m.len(), es.len(), m.len(), es.len()],
        |i| format!("x={} e={} b={} e={}", show(&m[i[0]]), es[i[1]], show(&m[i[2]]), es[i[3]]),
        |i, w| {
            log_case(&with_exp(&m[i[0]], es[i[1]]), &with_exp(&m[i[2]], es[i[3]]), &[128], &RMS, w);
        },
    );
}

// ---------------------------------------------------------------- C20

pub fn const_ref(k: usize, prec: usize) -> Ref {
    let mut f = Float::new(prec as u32);
    let t = unsafe {
        match k {
            0 => mpfr::const_pi(f.as_raw_mut(), mpfr::rnd_t::RNDZ),
            1 => {
                let one = Float::with_val(2, 1);
                mpfr::exp(f.as_raw_mut(), one.as_raw(), mpfr::rnd_t::RNDZ)
            }
            2 => mpfr::const_log2(f.as_raw_mut(), mpfr::rnd_t::RNDZ),
            _ => {
                let ten = Float::with_val(8, 10);
                mpfr::log(f.as_raw_mut(), ten.as_raw(), mpfr::rnd_t::RNDZ)
            }
        }
    };
    reff(&f, t)
}

pub const CONSTS: [&str; 4] = ["pi", "e", "ln2", "ln10"];

pub fn get_const(cc: &mut Consts, k: usize, p: usize, rm: RM) -> BigFloat {
    match k {
        0 => cc.pi(p, rm),
        1 => cc.e(p, rm),
        2 => cc.ln_2(p, rm),
        _ => cc.ln_10(p, rm),
    }
}
