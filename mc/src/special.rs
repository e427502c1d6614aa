//! C10: infinities, NaN, zeros and poles against IEEE 754 / MPFR.
use crate::alpha::*;
use crate::core::*;
use crate::edges::sgn;
use crate::oracle::*;
use crate::trans::*;
use astro_float_num::{BigFloat, Error, RoundingMode as RM, Sign, INF_NEG, INF_POS};
use gmp_mpfr_sys::mpfr;
use rug::Float;

pub fn fl(b: &BigFloat) -> Float {
    if b.is_nan() {
        Float::with_val(64, f64::NAN)
    } else if b.is_inf() {
        Float::with_val(64, if b.is_inf_pos() { f64::INFINITY } else { f64::NEG_INFINITY })
    } else {
        let d = dy(b);
        if d.is_zero() {
            Float::with_val(64, if d.neg { -0.0 } else { 0.0 })
        } else {
            to_float(&d)
        }
    }
}

pub fn nan_args() -> Vec<BigFloat> {
    vec![
        BigFloat::nan(None),
        BigFloat::nan(Some(Error::InvalidArgument)),
        BigFloat::nan(Some(Error::DivisionByZero)),
        BigFloat::nan(Some(Error::MemoryAllocation)),
        BigFloat::nan(Some(Error::ExponentOverflow(Sign::Pos))),
        BigFloat::nan(Some(Error::ExponentOverflow(Sign::Neg))),
    ]
}

pub fn special_args() -> Vec<BigFloat> {
    let mut v = nan_args();
    v.push(INF_POS);
    v.push(INF_NEG);
    for p in [64, 128] {
        let z = BigFloat::new(p);
        v.push(z.clone());
        v.push(sgn(&z, true));
    }
    v
}

pub fn finite_args(rich: bool) -> Vec<BigFloat> {
    let mut v = vec![];
    let d = |n: i64, s: i64, p: usize| encode(&Dy { neg: n < 0, m: rug::Integer::from(n.abs()), e: -s }, p);
    for p in if rich { vec![64, 128, 192] } else { vec![64, 128] } {
        for (n, s) in [(1, 0), (2, 0), (3, 0), (1, 1), (3, 1), (5, 1), (3, 2), (7, 0), (10, 0), (101, 0), (1, 40)] {
            for g in [1, -1] {
                v.push(d(g * n, s, p));
            }
        }
        // next to one
        for k in [1i64, -1] {
            for g in [false, true] {
                let one = rug::Integer::from(1) << (p as u32 - 1);
                if k < 0 {
                    v.push(encode(&Dy { neg: g, m: (one << 1u32) - 1, e: -(p as i64) }, p));
                } else {
                    v.push(encode(&Dy { neg: g, m: one + 1, e: 1 - p as i64 }, p));
                }
            }
        }
        for g in [false, true] {
            v.push(sgn(&BigFloat::max_value(p), g));
            v.push(sgn(&BigFloat::min_positive(p), g));
            v.push(sgn(&BigFloat::min_positive_normal(p), g));
            // odd and even integers longer than a word, and a large even number
            v.push(encode(&Dy { neg: g, m: (rug::Integer::from(1) << 70u32) + 1, e: 0 }, 128));
            v.push(encode(&Dy { neg: g, m: (rug::Integer::from(1) << 70u32) + 2, e: 0 }, 128));
            v.push(encode(&Dy { neg: g, m: (rug::Integer::from(1) << 70u32) + 1, e: -1 }, 128));
            v.push(encode(&Dy { neg: g, m: (rug::Integer::from(1) << 63u32) + 1, e: 0 }, 64));
        }
    }
    if rich {
        for e in [2i64, 31, 32, 63, 64, 65, 128, 1000, EMAX, EMIN] {
            for g in [false, true] {
                v.push(mk(&[MAX], g, e as _));
                v.push(mk(&[MSB, MSB], g, e as _));
            }
        }
    }
    v
}

fn err_key(b: &BigFloat) -> String {
    format!("{:?}", b.err())
}

/// the rule for NaN arguments: the error of (the first) NaN argument is kept
fn nan_rule(r: &BigFloat, args: &[&BigFloat]) -> Option<Result<bool, String>> {
    let first = args.iter().find(|a| a.is_nan())?;
    Some(if r.is_nan() && args.iter().any(|a| a.is_nan() && err_key(r) == err_key(a)) {
        Ok(true)
    } else {
        Err(format!("got {} want NaN({:?})", show(r), first.err()))
    })
}

pub fn zero_sign_ok(r: &BigFloat, neg: bool) -> bool {
    !r.is_zero() || (r.sign() == Some(Sign::Neg)) == neg
}

/// compare with a reference; `args` decide about the error of a NaN result
fn judge(r: &BigFloat, rf: &Ref, args: &[&BigFloat], p: usize, rm: RM, zs: bool) -> Result<bool, String> {
    match rf {
        Ref::Nan => {
            let fin = args.iter().all(|a| !a.is_inf());
            if !r.is_nan() {
                Err(format!("got {} want NaN", show(r)))
            } else if fin && !is_err(r, &["invalid", "divzero"]) {
                Err(format!("got {} want NaN with an error", show(r)))
            } else {
                Ok(true)
            }
        }
        Ref::Num { neg, m, sticky, .. } => {
            let c = check_ref(r, rf, p, rm, false, STRICT)?;
            if zs && *m == 0 && !*sticky && !zero_sign_ok(r, *neg) {
                return Err(format!("got {} want zero with sign neg={}", show(r), neg));
            }
            Ok(c)
        }
        _ => check_ref(r, rf, p, rm, false, STRICT),
    }
}

type B2 = fn(&BigFloat, &BigFloat, usize, RM, &mut W) -> BigFloat;
type M2 = unsafe extern "C" fn(*mut mpfr::mpfr_t, *const mpfr::mpfr_t, *const mpfr::mpfr_t, mpfr::rnd_t) -> i32;

fn mpfr2(f: M2, a: &Float, b: &Float, prec: usize) -> Ref {
    let mut r = Float::new(prec as u32);
    let t = unsafe { f(r.as_raw_mut(), a.as_raw(), b.as_raw(), mpfr::rnd_t::RNDZ) };
    reff(&r, t)
}

fn one_by_mag(b: &BigFloat) -> bool {
    decode(b).map_or(false, |d| d.abs_cmp(&Dy::int(1)) == std::cmp::Ordering::Equal)
}

fn special(b: &BigFloat) -> bool {
    b.is_nan() || b.is_inf() || b.is_zero()
}

pub fn c10(r: &Run) {
    *r.rule.lock().unwrap() = "Every operation on every tuple of special and representative finite arguments, for every rounding mode; an evaluation is non-trivial when a special argument or an inexact result is involved.".into();
    r.assumptions.lock().unwrap().push("The table of limits is MPFR's (IEEE 754) one; logarithm to a base is the quotient of limits of natural logarithms.".into());
    let mut a = special_args();
    a.extend(finite_args(true));
    let ps: Vec<usize> = r.t(vec![1, 64, 65, 192], vec![1, 7, 8, 64, 65, 128, 192, 320]);

    // queries, accessors, text, precision changes and copies of every class of argument
    r.space(
        "queries",
        &[a.len()],
        |i| show(&a[i[0]]),
        |i, w| queries(&a[i[0]], w),
    );
    // unary functions with a precision
    let mut fs: Vec<Fun> = vec![EXP, LN, LOG2, LOG10, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH];
    fs.push(Fun { name: "sqrt", mf: mpfr::sqrt, lf: |x, p, rm, _| x.sqrt(p, rm), inv: mpfr::sqr });
    fs.push(Fun { name: "cbrt", mf: mpfr::cbrt, lf: |x, p, rm, _| x.cbrt(p, rm), inv: mpfr::sqr });
    unsafe extern "C" fn rec(a: *mut mpfr::mpfr_t, b: *const mpfr::mpfr_t, r: mpfr::rnd_t) -> i32 {
        mpfr::ui_div(a, 1, b, r)
    }
    fs.push(Fun { name: "reciprocal", mf: rec, lf: |x, p, rm, _| x.reciprocal(p, rm), inv: mpfr::sqr });
    r.space(
        "unary",
        &[fs.len(), a.len(), ps.len()],
        |i| format!("{} {} p={}", fs[i[0]].name, show(&a[i[1]]), ps[i[2]]),
        |i, w| {
            let (f, x, p) = (&fs[i[0]], &a[i[1]], ps[i[2]]);
            // arguments far outside the range where a periodic function is cheap are left to C18
            if x.exponent().map_or(false, |e| e > 100000) && matches!(f.name, "sin" | "cos" | "tan") {
                return;
            }
            if x.exponent().map_or(false, |e| e < -100000) && !x.is_zero() && matches!(f.name, "cos" | "cosh" | "exp" | "acos") {
                // covered with far arguments in C17-C19
            }
            let odd = matches!(f.name, "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" | "sqrt" | "cbrt" | "reciprocal");
            let rf = mpfr1(f.mf, &fl(x), rp(p) + 16);
            for rm in RMS {
                let z = (f.lf)(x, p, rm, &mut w.cc);
                let c = nan_rule(&z, &[x]).unwrap_or_else(|| judge(&z, &rf, &[x], rp(p), rm, odd));
                w.sub(c, || format!("{}({}) p={} {:?}", f.name, show(x), p, rm));
            }
        },
    );
    // functions without a precision
    type U = fn(&BigFloat, RM) -> BigFloat;
    let us: Vec<(&str, U)> = vec![
        ("abs", |x, _| x.abs()),
        ("int", |x, _| x.int()),
        ("fract", |x, _| x.fract()),
        ("ceil", |x, _| x.ceil()),
        ("floor", |x, _| x.floor()),
        ("round0", |x, rm| x.round(0, rm)),
        ("round7", |x, rm| x.round(7, rm)),
        ("roundbig", |x, rm| x.round(1 << 40, rm)),
        ("neg", |x, _| x.neg()),
        ("signum", |x, _| x.signum()),
        ("clone", |x, _| x.clone()),
        ("-x", |x, _| -x),
        ("inv_sign", |x, _| {
            let mut y = x.clone();
            y.inv_sign();
            y
        }),
        ("set_sign", |x, _| {
            let mut y = x.clone();
            y.set_sign(Sign::Neg);
            y
        }),
        ("set_precision", |x, rm| {
            let mut y = x.clone();
            match y.set_precision(192, rm) {
                Ok(()) => y,
                Err(e) => BigFloat::nan(Some(e)),
            }
        }),
        ("try_set_precision", |x, rm| {
            let mut y = x.clone();
            if !y.try_set_precision(192, rm, 1000) {
                return BigFloat::new(64);
            }
            y
        }),
        ("set_exponent", |x, _| {
            let mut y = x.clone();
            if x.is_zero() || x.is_nan() || x.is_inf() {
                y.set_exponent(77);
            }
            y
        }),
        ("set_inexact", |x, _| {
            let mut y = x.clone();
            y.set_inexact(false);
            y
        }),
    ];
    r.space(
        "unary-exact",
        &[us.len(), a.len(), 7],
        |i| format!("{} {} {:?}", us[i[0]].0, show(&a[i[1]]), RMS[i[2]]),
        |i, w| {
            let (n, f) = us[i[0]];
            let (x, rm) = (&a[i[1]], RMS[i[2]]);
            let z = f(x, rm);
            if let Some(c) = nan_rule(&z, &[x]) {
                w.sub(c, || n.to_string());
                return;
            }
            let want_inf = |neg: bool| if (neg && z.is_inf_neg()) || (!neg && z.is_inf_pos()) { Ok(true) } else { Err(format!("got {} want infinity neg={}", show(&z), neg)) };
            let want_zero = |neg: bool| if z.is_zero() && zero_sign_ok(&z, neg) { Ok(true) } else { Err(format!("got {} want zero neg={}", show(&z), neg)) };
            let neg = x.is_negative();
            if x.is_inf() {
                let c = match n {
                    "abs" => want_inf(false),
                    "int" | "fract" => {
                        if z.is_nan() {
                            Ok(true)
                        } else {
                            Err(format!("got {} want NaN", show(&z)))
                        }
                    }
                    "neg" | "-x" | "inv_sign" => want_inf(!neg),
                    "set_sign" => want_inf(true),
                    "signum" => {
                        let d = decode(&z);
                        if d.map_or(false, |d| d.cmp(&Dy::int(if neg { -1 } else { 1 })) == std::cmp::Ordering::Equal) {
                            Ok(true)
                        } else {
                            Err(format!("got {}", show(&z)))
                        }
                    }
                    _ => want_inf(neg),
                };
                w.sub(c, || n.to_string());
            } else if x.is_zero() {
                let c = match n {
                    "abs" => want_zero(false),
                    "neg" | "-x" | "inv_sign" => want_zero(!neg),
                    "set_sign" => want_zero(true),
                    "signum" | "fract" => {
                        if z.is_zero() {
                            Ok(true)
                        } else {
                            Err(format!("got {}", show(&z)))
                        }
                    }
                    _ => want_zero(neg),
                };
                w.sub(c, || n.to_string());
            } else if z.is_nan() || z.is_inf() {
                w.sub(Err(format!("got {} of a finite number", show(&z))), || n.to_string());
            } else {
                w.count(false);
            }
        },
    );
    // binary operations
    let bs: Vec<(&str, B2, M2, bool)> = vec![
        ("add", |x, y, p, rm, _| x.add(y, p, rm), mpfr::add, false),
        ("sub", |x, y, p, rm, _| x.sub(y, p, rm), mpfr::sub, false),
        ("mul", |x, y, p, rm, _| x.mul(y, p, rm), mpfr::mul, true),
        ("div", |x, y, p, rm, _| x.div(y, p, rm), mpfr::div, true),
        ("pow", |x, y, p, rm, w| x.pow(y, p, rm, &mut w.cc), mpfr::pow, true),
    ];
    let ps2: Vec<usize> = r.t(vec![1, 192], vec![1, 7, 64, 65, 192]);
    r.space(
        "binary",
        &[bs.len(), a.len(), a.len(), ps2.len()],
        |i| format!("{} {} , {} p={}", bs[i[0]].0, show(&a[i[1]]), show(&a[i[2]]), ps2[i[3]]),
        |i, w| {
            let (n, f, m, zs) = bs[i[0]];
            let (x, y, p) = (&a[i[1]], &a[i[2]], ps2[i[3]]);
            if !special(x) && !special(y) {
                // finite pairs: arithmetic is decided by C01-C03 and C07; powers only of plus and minus one here
                if n != "pow" || !(one_by_mag(x) || one_by_mag(y)) {
                    return;
                }
            }
            let (fx, fy) = (fl(x), fl(y));
            let mut rf = mpfr2(m, &fx, &fy, rp(p) + 16);
            if n == "pow" && x.is_finite_num() && y.is_finite_num() && one_by_mag(y) && !one_by_mag(x) {
                // x^1 and x^-1 may have more digits than the reference precision plus sticky
                rf = mpfr2(m, &fx, &fy, rp(p) + 16);
            }
            for rm in RMS {
                let z = f(x, y, p, rm, w);
                let c = nan_rule(&z, &[x, y]).unwrap_or_else(|| judge(&z, &rf, &[x, y], rp(p), rm, zs));
                w.sub(c, || format!("p={} {:?} {}({}, {})", p, rm, n, cls(x), cls(y)));
            }
        },
    );
    // operations without a precision
    type X2 = fn(&BigFloat, &BigFloat) -> BigFloat;
    let xs: Vec<(&str, X2, Option<M2>)> = vec![
        ("add_full_prec", |x, y| x.add_full_prec(y), Some(mpfr::add)),
        ("sub_full_prec", |x, y| x.sub_full_prec(y), Some(mpfr::sub)),
        ("mul_full_prec", |x, y| x.mul_full_prec(y), Some(mpfr::mul)),
        ("rem", |x, y| x.rem(y), Some(mpfr::fmod)),
        ("min", |x, y| x.min(y), Some(mpfr::min)),
        ("max", |x, y| x.max(y), Some(mpfr::max)),
    ];
    r.space(
        "binary-exact",
        &[xs.len(), a.len(), a.len()],
        |i| format!("{} {} , {}", xs[i[0]].0, show(&a[i[1]]), show(&a[i[2]])),
        |i, w| {
            let (n, f, m) = xs[i[0]];
            let (x, y) = (&a[i[1]], &a[i[2]]);
            if !special(x) && !special(y) {
                return;
            }
            let z = f(x, y);
            let c = nan_rule(&z, &[x, y]).unwrap_or_else(|| {
                let rf = mpfr2(m.unwrap(), &fl(x), &fl(y), 512);
                match rf {
                    Ref::Num { neg, m, e, sticky } => {
                        assert!(!sticky);
                        let d = decode(&z).ok_or_else(|| format!("got {} want a number", show(&z)))?;
                        if d.cmp(&Dy { neg, m: m.clone(), e }) != std::cmp::Ordering::Equal {
                            return Err(format!("got {} want {}", show(&z), Dy { neg, m, e }.show()));
                        }
                        if n == "mul_full_prec" && m == 0 && !zero_sign_ok(&z, neg) {
                            return Err(format!("got {} want zero neg={}", show(&z), neg));
                        }
                        Ok(true)
                    }
                    rf => judge(&z, &rf, &[x, y], 512, RM::ToEven, false),
                }
            });
            w.sub(c, || format!("{}({}, {})", n, cls(x), cls(y)));
        },
    );
    // logarithm to a base
    r.space(
        "log-base",
        &[a.len(), a.len(), ps2.len()],
        |i| format!("log {} base {} p={}", show(&a[i[0]]), show(&a[i[1]]), ps2[i[2]]),
        |i, w| {
            let (x, b, p) = (&a[i[0]], &a[i[1]], ps2[i[2]]);
            if !special(x) && !special(b) && !one_by_mag(x) && !one_by_mag(b) {
                return;
            }
            let ln = |f: &Float| -> Float {
                if f.is_zero() {
                    return Float::with_val(64, f64::NEG_INFINITY);
                }
                let mut z = Float::new(64);
                unsafe { mpfr::log(z.as_raw_mut(), f.as_raw(), mpfr::rnd_t::RNDN) };
                z
            };
            let (lx, lb) = (ln(&fl(x)), ln(&fl(b)));
            for rm in RMS {
                let z = x.log(b, p, rm, &mut w.cc);
                let c = nan_rule(&z, &[x, b]).unwrap_or_else(|| {
                    if lx.is_nan() || lb.is_nan() || (lx.is_infinite() && lb.is_infinite()) || (lx.is_zero() && lb.is_zero()) {
                        // the pole 0/0 of finite arguments needs no error
                        if z.is_nan() && (x.is_inf() || b.is_inf() || (lx.is_zero() && lb.is_zero()) || is_err(&z, &["invalid", "divzero"])) {
                            Ok(true)
                        } else {
                            Err(format!("got {} want NaN", show(&z)))
                        }
                    } else if lb.is_zero() {
                        // a pole whose sign depends on the side of approach
                        if z.is_inf() {
                            Ok(true)
                        } else {
                            Err(format!("got {} want an infinity", show(&z)))
                        }
                    } else if lx.is_infinite() {
                        let neg = lx.is_sign_negative() != lb.is_sign_negative();
                        check_ref(&z, &Ref::Inf(neg), rp(p), rm, false, STRICT)
                    } else if lx.is_zero() || lb.is_infinite() {
                        if z.is_zero() && z.mantissa_max_bit_len() == Some(rp(p)) && !z.inexact() {
                            Ok(true)
                        } else {
                            Err(format!("got {} want zero", show(&z)))
                        }
                    } else {
                        return Ok(false);
                    }
                });
                w.sub(c, || format!("log({}, base {}) p={} {:?}", cls(x), cls(b), p, rm));
            }
        },
    );
    // integer powers
    let ns = [0usize, 1, 2, 3, 4, 5, 255, 256, usize::MAX - 1, usize::MAX];
    r.space(
        "powi",
        &[a.len(), ns.len(), ps.len()],
        |i| format!("{} ^ {} p={}", show(&a[i[0]]), ns[i[1]], ps[i[2]]),
        |i, w| {
            let (x, n, p) = (&a[i[0]], ns[i[1]], ps[i[2]]);
            if !special(x) && !one_by_mag(x) {
                return;
            }
            let fn_ = Float::with_val(64, n as u64);
            let rf = mpfr2(mpfr::pow, &fl(x), &fn_, rp(p) + 16);
            for rm in RMS {
                let z = x.powi(n, p, rm);
                let c = nan_rule(&z, &[x]).unwrap_or_else(|| judge(&z, &rf, &[x], rp(p), rm, true));
                w.sub(c, || format!("powi p={} {:?}", p, rm));
            }
        },
    );
    // clamp
    let ca: Vec<BigFloat> = {
        let mut v = special_args();
        v.extend(finite_args(false).into_iter().step_by(r.t(6, 2)));
        v
    };
    r.space(
        "clamp",
        &[ca.len(), ca.len(), ca.len()],
        |i| format!("{} in {} .. {}", show(&ca[i[0]]), show(&ca[i[1]]), show(&ca[i[2]])),
        |i, w| {
            let (x, lo, hi) = (&ca[i[0]], &ca[i[1]], &ca[i[2]]);
            let z = x.clamp(lo, hi);
            let c = nan_rule(&z, &[x, lo, hi]).unwrap_or_else(|| {
                let (fx, fl_, fh) = (fl(x), fl(lo), fl(hi));
                if fl_ > fh {
                    return if z.is_nan() { Ok(true) } else { Err(format!("got {} want NaN", show(&z))) };
                }
                let want = if fx < fl_ {
                    lo
                } else if fx > fh {
                    hi
                } else {
                    x
                };
                if ident(&z, want) {
                    Ok(true)
                } else {
                    Err(format!("got {} want {}", show(&z), show(want)))
                }
            });
            w.sub(c, || "clamp".into());
        },
    );
}

/// class of a value, for messages and known findings
pub fn cls(b: &BigFloat) -> String {
    if b.is_nan() {
        "NaN".into()
    } else if b.is_inf() {
        if b.is_inf_pos() { "+Inf".into() } else { "-Inf".into() }
    } else if b.is_zero() {
        if b.is_negative() { "-0".into() } else { "+0".into() }
    } else {
        let d = dy(b);
        let s = if d.neg { "neg" } else { "pos" };
        match d.abs_cmp(&Dy::int(1)) {
            std::cmp::Ordering::Less => format!("{}<1", s),
            std::cmp::Ordering::Equal => format!("{}=1", s),
            std::cmp::Ordering::Greater => format!("{}>1", s),
        }
    }
}

pub trait Fin {
    fn is_finite_num(&self) -> bool;
}
impl Fin for BigFloat {
    fn is_finite_num(&self) -> bool {
        !self.is_nan() && !self.is_inf()
    }
}

/// what every query says of a number of each class
fn queries(x: &BigFloat, w: &mut W) {
    use astro_float_num::Radix;
    use std::num::FpCategory::*;
    // the class itself is read off the comparisons with the infinities
    let nan = BigFloat::cmp(x, x).is_none();
    let pinf = BigFloat::cmp(x, &INF_POS) == Some(0);
    let ninf = BigFloat::cmp(x, &INF_NEG) == Some(0);
    let num = !nan && !pinf && !ninf;
    let zero = num && x.as_raw_parts().map_or(false, |p| p.0.iter().all(|&d| d == 0));
    let neg = ninf || (num && x.as_raw_parts().map_or(false, |p| p.2 == Sign::Neg));
    let mut t = |ok: bool, what: &str| w.sub(if ok { Ok(!num || zero) } else { Err(format!("{} is wrong", what)) }, || String::new());
    t(x.is_nan() == nan, "is_nan");
    t(x.is_inf() == (pinf || ninf), "is_inf");
    t(x.is_inf_pos() == pinf, "is_inf_pos");
    t(x.is_inf_neg() == ninf, "is_inf_neg");
    t(x.is_zero() == zero, "is_zero");
    t(num || !x.is_int(), "is_int");
    t(!zero || x.is_int(), "is_int of zero");
    t(num || !x.is_subnormal(), "is_subnormal");
    t(x.is_negative() == (neg && !nan), "is_negative");
    t(x.is_positive() == (!neg && !nan), "is_positive");
    t(x.sign() == if nan { None } else if neg { Some(Sign::Neg) } else { Some(Sign::Pos) }, "sign");
    t(nan || x.err().is_none(), "err");
    let c = x.classify();
    t(
        match c {
            Nan => nan,
            Infinite => pinf || ninf,
            Zero => zero,
            _ => num && !zero,
        },
        "classify",
    );
    t(x.exponent().is_some() == num, "exponent");
    t(x.precision().is_some() == num, "precision");
    t(x.mantissa_max_bit_len().is_some() == num, "mantissa_max_bit_len");
    t(x.mantissa_digits().is_some() == num, "mantissa_digits");
    t(x.as_raw_parts().is_some() == num, "as_raw_parts");
    t(num || !x.inexact(), "inexact");
    if num {
        let q = x.as_raw_parts().unwrap();
        t(x.mantissa_max_bit_len() == Some(q.0.len() * 64), "mantissa_max_bit_len");
        t(x.mantissa_digits() == Some(q.0), "mantissa_digits");
        t(x.exponent() == Some(q.3), "exponent");
        t(x.precision() == Some(q.1), "precision");
    }
    let y = x.clone();
    t(BigFloat::cmp(&y, x).is_none() == nan && y.is_nan() == nan && y.is_inf_pos() == pinf && y.is_inf_neg() == ninf && y.err() == x.err() && y.sign() == x.sign(), "clone");
    if num {
        return;
    }
    let want = if nan { "NaN" } else if pinf { "Inf" } else { "-Inf" };
    t(format!("{}", x) == want && format!("{:b}", x) == want && format!("{:o}", x) == want && format!("{:X}", x) == want, "display");
    for rm in RMS {
        for rdx in [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex] {
            w.count(true);
            let g = x.format(rdx, rm, &mut w.cc);
            let d = x.convert_to_radix(rdx, rm, &mut w.cc);
            let mut t = |ok: bool, what: &str| w.sub(if ok { Ok(true) } else { Err(format!("{} {:?} {:?} is wrong", what, rdx, rm)) }, || String::new());
            t(g.as_deref() == Ok(want), "format");
            t(d.err() == Some(Error::InvalidArgument), "convert_to_radix");
        }
        // an infinity and a NaN fit every precision
        for p in [0usize, 1, 64, 100, 1 << 20] {
            let mut y = x.clone();
            let a = y.set_precision(p, rm);
            let same = |y: &BigFloat| y.is_nan() == nan && y.is_inf_pos() == pinf && y.is_inf_neg() == ninf && y.err() == x.err();
            let ok = a.is_ok() && same(&y);
            let b = y.try_set_precision(p, rm, p);
            let ok = ok && b && same(&y);
            w.sub(if ok { Ok(true) } else { Err(format!("precision change to {} {:?} gives {}", p, rm, show(&y))) }, || String::new());
        }
    }
}
