//! C26: programs of the expression macro against MPFR.
use crate::gen::*;
use astro_float::ctx::Context;
use astro_float::{expr, BigFloat, Consts, RoundingMode as RM};
use gmp_mpfr_sys::mpfr;
use mc::core::*;
use mc::oracle::*;
use mc::trans::{from_float, to_float};
use rug::ops::Pow;
use rug::{Float, Integer};
use std::cmp::Ordering;

/// Number of bits below the context precision that the result may be perturbed in before it is rounded.
const GUARD: i64 = 32;
const EMIN_CTX: i32 = -20000;

#[derive(Clone)]
struct Node {
    v: Float,
    exact: bool,
    /// largest number of significant bits of the values the node is made of
    bits: usize,
    /// most bits that cancel between two values, one of which has more bits than that
    deep: usize,
}

fn sig(v: &Float) -> usize {
    if v.is_finite() && !v.is_zero() {
        let m = from_float(v).m;
        m.significant_bits() as usize - m.find_one(0).unwrap() as usize
    } else {
        1
    }
}

fn prec_of(i: usize) -> u32 {
    [2000u32, 4000, 12000][i]
}

/// Evaluates a postfix program with `prec` bits. None: a zero or non-finite value that is not exact.
fn eval(rpn: &str, vars: &[&Float; 3], prec: u32) -> Option<Node> {
    let mut st: Vec<Node> = vec![];
    for t in rpn.split(' ') {
        let n = if let Some(l) = t.strip_prefix('#') {
            // decimal literals: exact when MPFR reads them at two precisions alike
            let v = Float::with_val(prec, Float::parse(l).unwrap());
            let v2 = Float::with_val(prec * 2, Float::parse(l).unwrap());
            let exact = v == v2;
            Node { deep: 0, bits: sig(&v), v, exact }
        } else {
            match t {
                "x" => Node { deep: 0, bits: sig(&vars[0]), v: vars[0].clone(), exact: true },
                "y" => Node { deep: 0, bits: sig(&vars[1]), v: vars[1].clone(), exact: true },
                "z" => Node { deep: 0, bits: sig(&vars[2]), v: vars[2].clone(), exact: true },
                "pi" => Node { v: Float::with_val(prec, rug::float::Constant::Pi), exact: false, bits: 0, deep: 0 },
                "e" => Node { v: Float::with_val(prec, 1).exp(), exact: false, bits: 0, deep: 0 },
                "ln_2" => Node { v: Float::with_val(prec, rug::float::Constant::Log2), exact: false, bits: 0, deep: 0 },
                "ln_10" => Node { v: Float::with_val(prec, 10).ln(), exact: false, bits: 0, deep: 0 },
                "+" | "-" | "*" | "/" | "%" | "log" | "pow" => {
                    let b = st.pop().unwrap();
                    let a = st.pop().unwrap();
                    let mut v = Float::new(prec);
                    let (ra, rb) = (a.v.as_raw(), b.v.as_raw());
                    let rn = mpfr::rnd_t::RNDN;
                    let mut tern = unsafe {
                        match t {
                            "+" => mpfr::add(v.as_raw_mut(), ra, rb, rn),
                            "-" => mpfr::sub(v.as_raw_mut(), ra, rb, rn),
                            "*" => mpfr::mul(v.as_raw_mut(), ra, rb, rn),
                            "/" => mpfr::div(v.as_raw_mut(), ra, rb, rn),
                            "%" => mpfr::fmod(v.as_raw_mut(), ra, rb, rn),
                            "pow" => mpfr::pow(v.as_raw_mut(), ra, rb, rn),
                            _ => {
                                let la = Float::with_val(prec + 64, &a.v).ln();
                                let lb = Float::with_val(prec + 64, &b.v).ln();
                                v = Float::with_val(prec, la / lb);
                                1
                            }
                        }
                    };
                    if v.is_zero() && !a.exact {
                        tern = 1;
                    }
                    let mut deep = a.deep.max(b.deep);
                    if matches!(t, "+" | "-" | "%") {
                        if let (Some(x), Some(y), Some(z)) = (a.v.get_exp(), b.v.get_exp(), v.get_exp()) {
                            let canc = (x.max(y) - z).max(0) as usize;
                            let wide = |n: &Node| if n.exact { sig(&n.v) } else { usize::MAX };
                            deep = deep.max(canc.min(wide(&a).max(wide(&b))));
                        }
                    }
                    Node { deep, exact: a.exact && b.exact && tern == 0, bits: a.bits.max(b.bits).max(sig(&v)), v }
                }
                _ => {
                    let a = st.pop().unwrap();
                    let mut v = Float::new(prec);
                    let (r, x, rn) = (v.as_raw_mut(), a.v.as_raw(), mpfr::rnd_t::RNDN);
                    let tern = unsafe {
                        match t {
                            "neg" => mpfr::neg(r, x, rn),
                            "recip" => mpfr::ui_div(r, 1, x, rn),
                            "sqrt" => mpfr::sqrt(r, x, rn),
                            "cbrt" => mpfr::cbrt(r, x, rn),
                            "ln" => mpfr::log(r, x, rn),
                            "log2" => mpfr::log2(r, x, rn),
                            "log10" => mpfr::log10(r, x, rn),
                            "exp" => mpfr::exp(r, x, rn),
                            "sin" => mpfr::sin(r, x, rn),
                            "cos" => mpfr::cos(r, x, rn),
                            "tan" => mpfr::tan(r, x, rn),
                            "asin" => mpfr::asin(r, x, rn),
                            "acos" => mpfr::acos(r, x, rn),
                            "atan" => mpfr::atan(r, x, rn),
                            "sinh" => mpfr::sinh(r, x, rn),
                            "cosh" => mpfr::cosh(r, x, rn),
                            "tanh" => mpfr::tanh(r, x, rn),
                            "asinh" => mpfr::asinh(r, x, rn),
                            "acosh" => mpfr::acosh(r, x, rn),
                            "atanh" => mpfr::atanh(r, x, rn),
                            _ => panic!("token {}", t),
                        }
                    };
                    Node { deep: a.deep, exact: a.exact && tern == 0, bits: a.bits.max(sig(&v)), v }
                }
            }
        };
        if !n.v.is_finite() || (n.v.is_zero() && !n.exact) {
            return if n.v.is_nan() { Some(Node { v: n.v, exact: false, bits: 0, deep: 0 }) } else { None };
        }
        if let Some(e) = n.v.get_exp() {
            if e.abs() > 8000 {
                return None;
            }
        }
        st.push(n);
    }
    st.pop()
}

/// the value of the program: None if it could not be determined
fn reference(rpn: &str, vars: &[&Float; 3], p: usize) -> Option<Node> {
    let mut a = eval(rpn, vars, prec_of(0))?;
    if a.v.is_nan() {
        let lo = eval(rpn, vars, 120)?;
        return if lo.v.is_nan() { Some(a) } else { None };
    }
    for i in 1..3 {
        let b = eval(rpn, vars, prec_of(i))?;
        if b.v.is_nan() {
            return None;
        }
        if a.exact && b.exact && a.v == b.v {
            return Some(b);
        }
        // both agree far below the precision of the result
        let d = Float::with_val(64, &a.v - &b.v);
        if !b.v.is_zero() && (d.is_zero() || (d.get_exp().unwrap() as i64) < b.v.get_exp().unwrap() as i64 - p as i64 - 200) {
            return Some(b);
        }
        a = b;
    }
    None
}

fn ref_show(v: &Float) -> String {
    v.to_string_radix(10, Some(30))
}

/// the result is the value, perturbed by less than 2^-GUARD units in the last place, and rounded
fn accept(r: &BigFloat, v: &Node, p: usize, rm: RM) -> Result<bool, String> {
    if v.v.is_nan() {
        return if r.is_nan() { Ok(false) } else { Err(format!("got {} want NaN", show(r))) };
    }
    if v.v.is_zero() {
        return if r.is_zero() { Ok(false) } else { Err(format!("got {} want 0", show(r))) };
    }
    let d = match decode(r) {
        Some(d) => d,
        None => return Err(format!("got {} want {}", show(r), ref_show(&v.v))),
    };
    let w = r.mantissa_digits().unwrap().len() * WB;
    if w != rp(p) {
        return Err(format!("precision {} want {}", w, rp(p)));
    }
    if d.is_zero() {
        return Err(format!("got zero want {}", ref_show(&v.v)));
    }
    let x = from_float(&v.v);
    let (m, e) = (x.m.clone(), x.e);
    // widen so that the perturbation is an integer
    let len = m.significant_bits() as i64;
    let k = (p as i64 + GUARD + 8 - len).max(0) as u32;
    let m = m << k;
    let e = e - k as i64;
    let delta = if v.exact && v.bits <= p { Integer::new() } else { Integer::from(1) << ((len + k as i64 - p as i64 - GUARD) as u32) };
    let err = || {
        let want = rnd(x.neg, &m, e, !v.exact, p, rm);
        Err(format!("got {} want {} = {}", show(r), show(&encode(&want, rp(p) + WB)), ref_show(&v.v)))
    };
    if d.neg != x.neg {
        return err();
    }
    if rm == RM::None {
        // within one unit in the last place
        let ulp = Integer::from(1) << ((len + k as i64 - p as i64) as u32);
        let u = Dy::new(false, ulp + &delta, e);
        let mut t = d.clone();
        t.neg = false;
        let s = Dy::new(true, m.clone(), e);
        return if t.add(&s).abs_cmp(&u) == Ordering::Greater { err() } else { Ok(!v.exact) };
    }
    let lo = Integer::from(&m - &delta);
    let hi = Integer::from(&m + &delta);
    let a = rnd(x.neg, &lo, e, false, p, rm);
    let b = rnd(x.neg, &hi, e, false, p, rm);
    if d.abs_cmp(&a) != Ordering::Less && d.abs_cmp(&b) != Ordering::Greater {
        Ok(!v.exact)
    } else {
        err()
    }
}

/// rounded to exactly p bits
fn rnd(neg: bool, m: &Integer, e: i64, sticky: bool, p: usize, rm: RM) -> Dy {
    let lsb = e + m.significant_bits() as i64 - p as i64;
    Dy::new(neg, round_at(neg, m, e, sticky, lsb, rm).0, lsb)
}

fn run(ex: &Ex, x: &BigFloat, y: &BigFloat, z: &BigFloat, ps: &[usize], rms: &[RM], w: &mut W) -> bool {
    let f = |b: &BigFloat| to_float(&decode(b).unwrap());
    let (fx, fy, fz) = (f(x), f(y), f(z));
    let pm = *ps.iter().max().unwrap();
    let v = match reference(ex.rpn, &[&fx, &fy, &fz], pm) {
        Some(v) => v,
        None => return false,
    };
    for (i, &p) in ps.iter().enumerate() {
        for &rm in &rms[..if i == 0 { rms.len() } else { 1 }] {
            let mut c = Context::new(p, rm, Consts::new().unwrap(), EMIN_CTX, -EMIN_CTX);
            let r = guard(|| (ex.f)(x, y, z, &mut c)).and_then(|r| accept(&r, &v, p, rm));
            let r = r.map_err(|e| {
                if v.deep > p + WB && (e.starts_with("got zero") || e.starts_with("got Inf") || e.starts_with("got -Inf")) {
                    format!("{} [two inexact values agree in all working bits]", e)
                } else {
                    e
                }
            });
            w.sub(r, || format!("p={} {:?} x={} y={} z={}", p, rm, show(x), show(y), show(z)));
        }
    }
    true
}

fn big(s: &str, p: usize) -> BigFloat {
    let v = Float::with_val(p as u32, Float::parse(s).unwrap());
    encode(&from_float(&v), p.max(64))
}

/// a float rounded to k bits
fn short(v: &Float, k: u32) -> Option<BigFloat> {
    if !v.is_finite() || v.is_zero() {
        return None;
    }
    let r = Float::with_val(k, v);
    let d = from_float(&r);
    Some(encode(&d, rp(k as usize).max(64)))
}

fn xs(rich: bool) -> Vec<BigFloat> {
    let mut v = vec![
        big("0.75", 64),
        big("1.1", 128),
        big("3.3e-9", 64),
        big("20.3", 64),
        big("-0.6", 64),
        encode(&Dy::new(false, (Integer::from(1) << 100u32) + 1, -100), 128),
        encode(&Dy::new(false, (Integer::from(1) << 90u32) - 1, -90), 128),
        big("-1.234e5", 64),
        big("1", 64),
    ];
    if rich {
        v.extend([
            big("2.5e30", 64),
            big("4.4e-40", 192),
            big("-7e-30", 64),
            big("2", 64),
            big("0.5", 64),
            big("-1", 64),
            encode(&Dy::new(true, (Integer::from(1) << 170u32) + 1, -170), 192),
            encode(&Dy::new(false, (Integer::from(1) << 420u32) + 1, -420), 448),
            big("1e-100", 320),
            big("0.9999", 320),
        ]);
    }
    v
}

/// y close to x and of every kind
fn ys(x: &BigFloat, rich: bool) -> Vec<BigFloat> {
    let mut v = vec![big("0.3", 64), big("-2.7e4", 64), big("3.1e-20", 128), big("2", 64)];
    let f = to_float(&decode(x).unwrap());
    for k in if rich { vec![40i64, 100, 150, 260, 700] } else { vec![100i64, 260] } {
        for s in [1i32, -1] {
            let e = f.get_exp().unwrap_or(0) as i64;
            let mut t = Float::with_val(3000, &f);
            t += Float::with_val(3000, s) * Float::with_val(3000, 2).pow((e - k) as i32) * Float::with_val(3000, 3);
            let d = from_float(&t);
            let n = rp(d.m.significant_bits() as usize).max(64);
            v.push(encode(&d, n));
            if s == 1 && rich {
                v.push(encode(&Dy { neg: !d.neg, m: d.m, e: d.e }, n));
            }
        }
    }
    v
}

pub fn c26(r: &Run) {
    *r.rule.lock().unwrap() =
        "a case is non-trivial when the exact value is not representable, so that the result had to be rounded".into();
    let rich = !r.quick();
    let ps: Vec<usize> = r.t(vec![64, 100, 192], vec![64, 100, 192, 1, 127, 320, 640]);
    let rms: Vec<RM> = r.t(
        vec![RM::ToEven, RM::Up, RM::None],
        vec![RM::ToEven, RM::Up, RM::None, RM::Down, RM::ToZero, RM::FromZero, RM::ToOdd],
    );
    let x = xs(rich);
    let one = big("1", 64);
    let und = std::sync::atomic::AtomicU64::new(0);
    let und = &und;
    let tally = |b: bool| {
        if !b {
            und.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    };

    let g = g_unary::ALL;
    r.space("one function of a leaf", &[g.len(), x.len()], |i| format!("{} x={}", g[i[0]].src, show(&x[i[1]])), |i, w| {
        let ex = &g[i[0]];
        if i[1] > 0 && !ex.rpn.contains('x') {
            return;
        }
        tally(run(ex, &x[i[1]], &one, &one, &ps, &rms, w));
    });
    let g = g_binary::ALL;
    let ny = ys(&x[0], rich).len();
    r.space(
        "one operation on leaves",
        &[g.len(), x.len(), ny],
        |i| format!("{} x={}", g[i[0]].src, show(&x[i[1]])),
        |i, w| {
            let ex = &g[i[0]];
            let (hx, hy) = (ex.src.contains('x'), ex.rpn.contains('y'));
            if (i[1] > 0 && !hx) || (i[2] > 0 && !hy) {
                return;
            }
            let y = ys(&x[i[1]], rich);
            tally(run(ex, &x[i[1]], &y[i[2]], &one, &ps, &rms, w));
        },
    );
    let g = g_composed::ALL;
    r.space("function of a function", &[g.len(), x.len()], |i| format!("{} x={}", g[i[0]].src, show(&x[i[1]])), |i, w| {
        tally(run(&g[i[0]], &x[i[1]], &one, &one, &ps, &rms, w));
    });
    let g = g_target::ALL;
    let ts = ["0", "1", "pi", "-1", "pi/2", "2", "22pi"];
    let nt = r.t(5, ts.len());
    let ks: Vec<u32> = r.t(vec![30, 110, 300], vec![30, 60, 110, 180, 300, 600]);
    let zs = [big("1234567.3", 64), big("0.3", 64), big("1e-25", 128), big("2", 64)];
    let nx = r.t(4, x.len());
    r.space(
        "function of an operation that cancels",
        &[g.len(), nx, nt, ks.len(), zs.len()],
        |i| format!("{} x={} target {} with {} bits", g[i[0]].src, show(&x[i[1]]), ts[i[2]], ks[i[3]]),
        |i, w| {
            let ex = &g[i[0]];
            if !ex.src.contains('z') && i[4] > 0 {
                return;
            }
            let (inner, op) = ex.inner.rsplit_once(' ').unwrap();
            let fx = to_float(&decode(&x[i[1]]).unwrap());
            let v = match eval(inner, &[&fx, &fx, &fx], 3000) {
                Some(v) if v.v.is_finite() => v.v,
                _ => return,
            };
            let pi = Float::with_val(3000, rug::float::Constant::Pi);
            let t = match ts[i[2]] {
                "0" => Float::with_val(3000, 0),
                "1" => Float::with_val(3000, 1),
                "-1" => Float::with_val(3000, -1),
                "2" => Float::with_val(3000, 2),
                "pi" => pi,
                "pi/2" => pi / 2,
                _ => pi * 22,
            };
            if t.is_zero() && (op == "*" || op == "/") {
                return;
            }
            let y = match op {
                "+" => t - v,
                "-" => v - t,
                "*" => t / v,
                _ => v / t,
            };
            if let Some(y) = short(&y, ks[i[3]]) {
                tally(run(ex, &x[i[1]], &y, &zs[i[4]], &ps, &rms, w));
            }
        },
    );
    let g = g_self::ALL;
    r.space(
        "cancelling expressions",
        &[g.len(), x.len(), ny],
        |i| format!("{} x={}", g[i[0]].src, show(&x[i[1]])),
        |i, w| {
            let ex = &g[i[0]];
            if i[2] > 0 && !ex.rpn.contains('y') {
                return;
            }
            let y = ys(&x[i[1]], rich);
            tally(run(ex, &x[i[1]], &y[i[2]], &one, &ps, &rms, w));
        },
    );
    for (name, g) in [("variables of any name", g_named::ALL), ("variables of any type", g_typed::ALL)] {
        r.space(
            name,
            &[g.len(), x.len(), ny],
            |i| format!("{{ {} {} }} x={}", g[i[0]].inner, g[i[0]].src, show(&x[i[1]])),
            |i, w| {
                let ex = &g[i[0]];
                if (i[1] > 0 && !ex.rpn.contains('x')) || (i[2] > 0 && !ex.rpn.contains('y')) {
                    return;
                }
                let y = ys(&x[i[1]], rich);
                tally(run(ex, &x[i[1]], &y[i[2]], &one, &ps, &rms, w));
            },
        );
    }
    // literals that are not finite, and zeros
    type G = fn(&mut Context) -> BigFloat;
    let lits: Vec<(&str, G, fn(&BigFloat) -> bool)> = vec![
        ("\"inf\"", |c| expr!("inf", &mut *c), |r| r.is_inf_pos()),
        ("\"-inf\"", |c| expr!("-inf", &mut *c), |r| r.is_inf_neg()),
        ("-\"inf\"", |c| expr!(-"inf", &mut *c), |r| r.is_inf_neg()),
        ("\"nan\"", |c| expr!("nan", &mut *c), |r| r.is_nan()),
        ("\"inf\" - \"inf\"", |c| expr!("inf" - "inf", &mut *c), |r| r.is_nan()),
        ("atan(\"inf\") > 1", |c| expr!(atan("inf"), &mut *c), |r| r.exponent() == Some(1) && r.is_positive()),
        ("1 / \"-inf\"", |c| expr!(1 / "-inf", &mut *c), |r| r.is_zero() && r.is_negative()),
        ("0", |c| expr!(0, &mut *c), |r| r.is_zero() && r.is_positive()),
        ("0.0", |c| expr!(0.0, &mut *c), |r| r.is_zero() && r.is_positive()),
        ("\"-0\"", |c| expr!("-0", &mut *c), |r| r.is_zero() && r.is_negative()),
        ("-0", |c| expr!(-0, &mut *c), |r| r.is_zero() && r.is_negative()),
        ("1 / 0", |c| expr!(1 / 0, &mut *c), |r| r.is_inf_pos()),
        ("0 / 0", |c| expr!(0 / 0, &mut *c), |r| r.is_nan()),
        ("sqrt(-1)", |c| expr!(sqrt(-1), &mut *c), |r| r.is_nan()),
        ("ln(0)", |c| expr!(ln(0), &mut *c), |r| r.is_inf_neg()),
        ("exp(\"-inf\")", |c| expr!(exp("-inf"), &mut *c), |r| r.is_zero()),
        ("1e-30000", |c| expr!(1e-30000, &mut *c), |r| r.is_zero()),
        ("1e30000", |c| expr!(1e30000, &mut *c), |r| r.is_inf_pos()),
        ("-1e30000", |c| expr!(-1e30000, &mut *c), |r| r.is_inf_neg()),
    ];
    r.space("special literals", &[lits.len(), ps.len(), rms.len()], |i| lits[i[0]].0.to_string(), |i, w| {
        let mut c = Context::new(ps[i[1]], rms[i[2]], Consts::new().unwrap(), EMIN_CTX, -EMIN_CTX);
        let v = guard(|| (lits[i[0]].1)(&mut c));
        w.sub(
            v.and_then(|v| if (lits[i[0]].2)(&v) { Ok(false) } else { Err(format!("got {}", show(&v))) }),
            || format!("p={} {:?}", ps[i[1]], rms[i[2]]),
        );
    });
    let n = und.load(std::sync::atomic::Ordering::Relaxed);
    r.extra.lock().unwrap().insert("undetermined_inputs".into(), n.into());
    r.assumptions.lock().unwrap().push(
        "the exact value is taken from MPFR at 2000 to 12000 bits when two precisions agree; inputs where they do not, \
         where an inexact intermediate value is zero or infinite, or is beyond 2^8000, are left out"
            .into(),
    );
}
