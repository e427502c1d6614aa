//! C27: contexts keep their settings, limit the exponent range, and tuples act like contexts.
use crate::gen::*;
use astro_float::ctx::{Context, Contextable};
use astro_float::{expr, BigFloat, Consts, Exponent, RoundingMode as RM, EXPONENT_MAX, EXPONENT_MIN};
use mc::core::*;
use mc::oracle::*;
use rug::Integer;

const RMS: [RM; 7] = [RM::ToEven, RM::Up, RM::Down, RM::ToZero, RM::FromZero, RM::ToOdd, RM::None];

#[derive(Clone, Debug)]
enum Op {
    P(usize),
    Rm(RM),
    Emin(Exponent),
    Emax(Exponent),
    NewConsts,
    Const(usize),
    Clone,
    Parts,
    New,
}

fn ops(rich: bool) -> Vec<Op> {
    let mut v = vec![
        Op::P(64),
        Op::P(0),
        Op::P(200),
        Op::Rm(RM::Down),
        Op::Rm(RM::ToOdd),
        Op::Emin(-1000),
        Op::Emin(5),
        Op::Emin(EXPONENT_MIN),
        Op::Emax(1000),
        Op::Emax(-5),
        Op::Emax(EXPONENT_MAX),
        Op::NewConsts,
        Op::Const(0),
        Op::Const(3),
        Op::Clone,
        Op::Parts,
        Op::New,
    ];
    if rich {
        v.extend([
            Op::P(1),
            Op::P(65),
            Op::P(5000),
            Op::Rm(RM::None),
            Op::Rm(RM::Up),
            Op::Emin(Exponent::MIN),
            Op::Emin(Exponent::MAX),
            Op::Emin(0),
            Op::Emin(1),
            Op::Emin(EXPONENT_MIN + 1),
            Op::Emax(Exponent::MIN),
            Op::Emax(Exponent::MAX),
            Op::Emax(0),
            Op::Emax(-1),
            Op::Emax(EXPONENT_MAX - 1),
            Op::Const(1),
            Op::Const(2),
        ]);
    }
    v
}

/// the settings a context must have
#[derive(Clone, Debug, PartialEq)]
struct Model {
    p: usize,
    rm: RM,
    emin: Exponent,
    emax: Exponent,
}

fn get<C: Contextable>(c: &mut C, k: usize) -> BigFloat {
    match k {
        0 => c.const_pi(),
        1 => c.const_e(),
        2 => c.const_ln2(),
        _ => c.const_ln10(),
    }
}

fn fresh(k: usize, p: usize, rm: RM) -> BigFloat {
    let mut cc = Consts::new().unwrap();
    mc::trans::get_const(&mut cc, k, p, rm)
}

fn agrees<C: Contextable>(c: &mut C, m: &Model, consts: bool) -> Result<(), String> {
    let s = Model { p: c.precision(), rm: c.rounding_mode(), emin: c.emin(), emax: c.emax() };
    if s != *m {
        return Err(format!("settings {:?} want {:?}", s, m));
    }
    if consts {
        for k in 0..4 {
            let (a, b) = (get(c, k), fresh(k, m.p, m.rm));
            if !ident(&a, &b) {
                return Err(format!("constant {} is {} want {}", k, show(&a), show(&b)));
            }
            let a = mc::trans::get_const(c.consts(), k, m.p + 64, RM::ToEven);
            let b = fresh(k, m.p + 64, RM::ToEven);
            if !ident(&a, &b) {
                return Err(format!("constant {} of the cache is {} want {}", k, show(&a), show(&b)));
            }
        }
    }
    Ok(())
}

fn step(c: Context, m: &mut Model, op: &Op) -> Result<Context, String> {
    let mut c = c;
    match *op {
        Op::P(p) => {
            c.set_precision(p);
            m.p = p;
        }
        Op::Rm(rm) => {
            c.set_rounding_mode(rm);
            m.rm = rm;
        }
        Op::Emin(e) => {
            c.set_emin(e);
            m.emin = e.clamp(EXPONENT_MIN, 0);
        }
        Op::Emax(e) => {
            c.set_emax(e);
            m.emax = e.clamp(0, EXPONENT_MAX);
        }
        Op::NewConsts => c.set_consts(Consts::new().map_err(|e| format!("{:?}", e))?),
        Op::Const(k) => {
            let (a, b) = (get(&mut c, k), fresh(k, m.p, m.rm));
            if !ident(&a, &b) {
                return Err(format!("constant {} is {} want {}", k, show(&a), show(&b)));
            }
        }
        Op::Clone => {
            let n = c.clone().map_err(|e| format!("{:?}", e))?;
            agrees(&mut c, m, false)?;
            c = n;
        }
        Op::Parts => {
            let (p, rm, mut cc, emin, emax) = c.to_raw_parts();
            let s = Model { p, rm, emin, emax };
            if s != *m {
                return Err(format!("parts {:?} want {:?}", s, m));
            }
            // tuples made of the parts
            agrees(&mut (p, rm, &mut cc, emin, emax), m, false)?;
            agrees(&mut (p, rm, &mut cc), &Model { emin: EXPONENT_MIN, emax: EXPONENT_MAX, ..m.clone() }, false)?;
            c = Context::new(p, rm, cc, emin, emax);
        }
        Op::New => {
            let (p, rm, cc, emin, emax) = c.to_raw_parts();
            // swapped limits are clamped
            c = Context::new(p, rm, cc, emax, emin);
            m.emin = emax.clamp(EXPONENT_MIN, 0);
            m.emax = emin.clamp(0, EXPONENT_MAX);
        }
    }
    Ok(c)
}

fn histories(r: &Run) {
    let o = ops(!r.quick());
    let o = &o;
    let n = o.len();
    let run = |seq: &[usize], w: &mut W| {
        let res = guard(|| {
            let mut m = Model { p: 128, rm: RM::ToEven, emin: -7, emax: 9 };
            let mut c = Context::new(128, RM::ToEven, Consts::new().unwrap(), -7, 9);
            agrees(&mut c, &m, false)?;
            for &i in seq {
                c = step(c, &mut m, &o[i])?;
                agrees(&mut c, &m, false)?;
            }
            agrees(&mut c, &m, true)?;
            let (p, rm, mut cc, emin, emax) = c.to_raw_parts();
            agrees(&mut (p, rm, &mut cc, emin, emax), &m, true)?;
            Ok(true)
        });
        w.sub(res.and_then(|x| x), || format!("{:?}", seq.iter().map(|&i| o[i].clone()).collect::<Vec<_>>()));
    };
    r.space("sequences of 3 operations on a context", &[n, n, n], |i| format!("{:?} {:?} {:?}", o[i[0]], o[i[1]], o[i[2]]), |i, w| run(i, w));
    if r.quick() {
        return;
    }
    let o2: Vec<usize> = (0..17).collect();
    r.space("sequences of 4 operations on a context", &[17, 17, 17, 17], |i| format!("{:?}", i), |i, w| {
        let s: Vec<usize> = i.iter().map(|&k| o2[k]).collect();
        run(&s, w)
    });
}

fn settings(r: &Run) {
    let es: Vec<Exponent> = vec![
        Exponent::MIN,
        EXPONENT_MIN,
        EXPONENT_MIN.saturating_add(1),
        -1000,
        -1,
        0,
        1,
        1000,
        EXPONENT_MAX - 1,
        EXPONENT_MAX,
        Exponent::MAX,
    ];
    let ps = [0usize, 1, 63, 64, 65, 128, 1000];
    let (es, ps) = (&es, &ps);
    let n = es.len();
    r.space("settings", &[ps.len(), 7, n, n], |i| format!("p={} {:?} {} {}", ps[i[0]], RMS[i[1]], es[i[2]], es[i[3]]), |i, w| {
        let (p, rm, emin, emax) = (ps[i[0]], RMS[i[1]], es[i[2]], es[i[3]]);
        let m = Model { p, rm, emin: emin.clamp(EXPONENT_MIN, 0), emax: emax.clamp(0, EXPONENT_MAX) };
        let all = i[2] == i[3];
        let res = guard(|| {
            let mut c = Context::new(p, rm, Consts::new().unwrap(), emin, emax);
            agrees(&mut c, &m, all)?;
            let mut cc = Consts::new().unwrap();
            agrees(&mut (p, rm, &mut cc, emin, emax), &m, all)?;
            agrees(&mut (p, rm, &mut cc), &Model { emin: EXPONENT_MIN, emax: EXPONENT_MAX, ..m.clone() }, all)?;
            let mut d = c.clone().map_err(|e| format!("{:?}", e))?;
            agrees(&mut d, &m, all)?;
            Ok(true)
        });
        w.sub(res.and_then(|x| x), String::new);
    });
}

struct Prog {
    src: &'static str,
    c: F,
    t5: fn(&BigFloat, &BigFloat, usize, RM, &mut Consts, Exponent, Exponent) -> BigFloat,
    t3: fn(&BigFloat, &BigFloat, usize, RM, &mut Consts) -> BigFloat,
}

macro_rules! progs {
    ($x:ident $y:ident $($e:expr;)*) => {
        vec![$(Prog {
            src: stringify!($e),
            c: |$x, $y, _z, c| { let _ = $y; expr!($e, &mut *c) },
            t5: |$x, $y, p, rm, cc, emin, emax| { let _ = $y; expr!($e, (p, rm, &mut *cc, emin, emax)) },
            t3: |$x, $y, p, rm, cc| { let _ = $y; expr!($e, (p, rm, &mut *cc)) },
        }),*]
    };
}

/// x within the range, so that only the result can leave it
fn limits(r: &Run) {
    let v: Vec<Prog> = progs!(x y
        x;
        -x;
        x * y;
        x / y;
        x + y;
        x - y;
        x * x * x;
        exp(x) * y;
        sinh(x);
        recip(x);
        sqrt(x) / y;
        pow(x, y);
        x + "0";
        x * 1e3 / 1000;
        x % y;
        y - 0.1;
        cosh(x) - exp(y);
        ln(x) / 7;
    );
    let v = &v;
    let ranges: Vec<(Exponent, Exponent)> = vec![(-5, 5), (0, 0), (-200, 0), (0, 200), (-130, 130), (EXPONENT_MIN, EXPONENT_MAX), (-1, 1), (-64, 64)];
    let mut mants: Vec<Vec<u64>> = vec![
        vec![1 << 63],
        vec![u64::MAX],
        vec![0, 0xC000_0000_0000_0000],
        vec![u64::MAX, u64::MAX],
        vec![1, 1 << 63],
        vec![1 << 63, u64::MAX],
    ];
    if r.quick() {
        mants.truncate(4);
    }
    let ps = [64usize, 128, 100];
    let des: Vec<i64> = r.t(vec![-1, 0, 1], vec![-3, -2, -1, 0, 1, 2, 3]);
    let (ranges, mants, des) = (&ranges, &mants, &des);
    // exponents next to both limits, and next to zero; some of them outside of the range
    let exps = |k: usize, (emin, emax): (Exponent, Exponent)| -> Exponent {
        let b = [emin as i64, emax as i64, 0, emin as i64 / 2, emax as i64 / 2][k / des.len()];
        (b + des[k % des.len()]).clamp(EXPONENT_MIN as i64, EXPONENT_MAX as i64) as Exponent
    };
    let ne = 5 * des.len();
    r.space(
        "results next to the limits",
        &[v.len(), ranges.len(), mants.len(), ne, mants.len(), ne],
        |i| {
            format!(
                "{} in {:?} x=+{:x?}e{} y=+{:x?}e{}",
                v[i[0]].src,
                ranges[i[1]],
                mants[i[2]],
                exps(i[3], ranges[i[1]]),
                mants[i[4]],
                exps(i[5], ranges[i[1]])
            )
        },
        |i, w| {
            let pr = &v[i[0]];
            if !pr.src.contains('y') && (i[4] > 0 || i[5] > 0) {
                return;
            }
            if r.quick() && (i[2] + i[3] + i[4] + i[5]) % 3 != 0 && pr.src.contains('y') {
                return;
            }
            let (emin, emax) = ranges[i[1]];
            if emax == EXPONENT_MAX && (pr.src.contains("exp") || pr.src.contains("sinh") || pr.src.contains("cosh") || pr.src.contains('%')) {
                // nothing but overflow; a remainder would need numbers of the length of the exponent
                return;
            }
            let mut cc0 = Consts::new().unwrap();
            for s in 0..4 {
                let x = mk(&mants[i[2]], s & 1 == 1, exps(i[3], (emin, emax)));
                let y = mk(&mants[i[4]], s & 2 == 2, exps(i[5], (emin, emax)));
                let out = |b: &BigFloat| b.exponent().map_or(false, |e| e > emax || e < emin);
                for (k, &p) in ps.iter().enumerate() {
                    let rm = RMS[(k + s + i[2] + i[4]) % 7];
                    let res = guard(|| {
                        let cc = std::mem::replace(&mut cc0, Consts::new().unwrap());
                        let mut c = Context::new(p, rm, cc, emin, emax);
                        let a = (pr.c)(&x, &y, &x, &mut c);
                        let a2 = (pr.c)(&x, &y, &x, &mut c);
                        let mut cc = c.to_raw_parts().2;
                        let b = (pr.t5)(&x, &y, p, rm, &mut cc, emin, emax);
                        let f = (pr.t3)(&x, &y, p, rm, &mut cc);
                        let mut c = Context::new(p, rm, cc, EXPONENT_MIN, EXPONENT_MAX);
                        let g = (pr.c)(&x, &y, &x, &mut c);
                        cc0 = c.to_raw_parts().2;
                        (a, a2, b, f, g)
                    });
                    let res = res.and_then(|(a, a2, b, f, g)| {
                        if !ident(&a, &a2) || !ident(&a, &b) {
                            return Err(format!("context {} again {} tuple {}", show(&a), show(&a2), show(&b)));
                        }
                        if !ident(&f, &g) {
                            return Err(format!("full range: tuple {} context {}", show(&f), show(&g)));
                        }
                        if let Some(e) = a.exponent() {
                            if (e > emax || e < emin) && !a.is_zero() {
                                return Err(format!("exponent of {} is outside of the range", show(&a)));
                            }
                        }
                        if out(&x) || out(&y) || pr.src.contains("%") || pr.src.contains("exp") || pr.src.contains("1e3") || (pr.src.contains("0.1") && emin > -3) {
                            // intermediate values may leave the range as well
                            return Ok(false);
                        }
                        // result of the full range, limited
                        let t = match g.exponent() {
                            Some(e) if e > emax => {
                                if g.is_positive() {
                                    a.is_inf_pos()
                                } else {
                                    a.is_inf_neg()
                                }
                            }
                            Some(e) if e < emin => a.is_zero() && a.is_positive() == g.is_positive(),
                            _ => ident(&a, &g),
                        };
                        if t {
                            Ok(out(&g))
                        } else {
                            Err(format!("got {} want {} limited to the range", show(&a), show(&g)))
                        }
                    });
                    w.sub(res, || format!("p={} {:?} x={} y={}", p, rm, show(&x), show(&y)));
                }
            }
        },
    );
}

/// the function that applies the range
fn flush(r: &Run) {
    use astro_float::macro_util::check_exponent_range;
    let es: Vec<Exponent> = vec![EXPONENT_MIN, EXPONENT_MIN + 1, -65, -64, -1, 0, 1, 64, EXPONENT_MAX - 1, EXPONENT_MAX];
    let m = [vec![1u64 << 63], vec![5, u64::MAX], vec![1, 0], vec![0]];
    let (es, m) = (&es, &m);
    let n = es.len();
    r.space("range of a number", &[m.len(), n, n, n, 2], |i| format!("{:x?}e{} in {}..{} neg {}", m[i[0]], es[i[1]], es[i[2]], es[i[3]], i[4]), |i, w| {
        let zero = i[0] == 3;
        let e = if zero { 0 } else if i[0] == 2 { EXPONENT_MIN } else { es[i[1]] };
        let (emin, emax) = (es[i[2]].min(0), es[i[3]].max(0));
        let x = if zero {
            let mut z = BigFloat::new(64);
            if i[4] == 1 {
                z.inv_sign();
            }
            z
        } else {
            mk(&m[i[0]], i[4] == 1, e)
        };
        let a = check_exponent_range(x.clone(), emin, emax);
        let neg = i[4] == 1;
        let ok = if e > emax {
            if neg {
                a.is_inf_neg()
            } else {
                a.is_inf_pos()
            }
        } else if e < emin {
            a.is_zero() && a.is_negative() == neg && a.mantissa_max_bit_len() == x.mantissa_max_bit_len()
        } else {
            ident(&a, &x)
        };
        w.sub(if ok { Ok(e > emax || e < emin) } else { Err(format!("got {}", show(&a))) }, String::new);
    });
    let _ = Integer::new();
}

/// precisions that cannot be used
fn unusable(r: &Run) {
    let limit = (isize::MAX / 2 + EXPONENT_MIN as isize) as usize;
    let ps = [
        0,
        1,
        63,
        64,
        65,
        limit - 200,
        limit - 64,
        limit - 1,
        limit,
        limit + 1,
        limit + 63,
        isize::MAX as usize / 2,
        isize::MAX as usize - 64,
        isize::MAX as usize,
        isize::MAX as usize + 1,
        usize::MAX / 2 + 64,
        usize::MAX - 200,
        usize::MAX - 128,
        usize::MAX - 127,
        usize::MAX - 65,
        usize::MAX - 64,
        usize::MAX - 63,
        usize::MAX - 1,
        usize::MAX,
    ];
    let f = [0.5f64, 3.0, -2.5, 0.0, 1e300, f64::INFINITY, f64::NAN];
    r.space(
        "unusable precisions",
        &[ps.len(), f.len(), f.len(), 3, 2],
        |i| format!("p={} x={} y={} {:?} tuple={}", ps[i[0]], f[i[1]], f[i[2]], [RM::ToEven, RM::Up, RM::None][i[3]], i[4]),
        |i, w| {
            let (p, rm) = (ps[i[0]], [RM::ToEven, RM::Up, RM::None][i[3]]);
            let (x, y) = (BigFloat::from(f[i[1]]), BigFloat::from(f[i[2]]));
            fn all<C: Contextable>(x: &BigFloat, y: &BigFloat, consts: bool, c: &mut C) -> Vec<(&'static str, BigFloat)> {
                macro_rules! e {
                    ($($t:tt)*) => { (stringify!($($t)*), expr!($($t)*, &mut *c)) };
                }
                let mut v = vec![
                    e!(x + y), e!(x - 1), e!(x * y), e!(x / y), e!(x % y), e!(-x), e!(recip(x)), e!(sqrt(x)), e!(cbrt(x)), e!("0.1"), e!(1.5),
                ];
                // at a precision that is huge, but not rejected, a constant is computed for ever
                if consts {
                    v.extend([
                        e!(exp(x)), e!(ln(x)), e!(log2(x)), e!(log10(x)), e!(log(x, y)), e!(pow(x, y)), e!(sin(x)), e!(cos(x)), e!(tan(x)),
                        e!(asin(x)), e!(acos(x)), e!(atan(x)), e!(sinh(x)), e!(cosh(x)), e!(tanh(x)), e!(asinh(x)), e!(acosh(x)), e!(atanh(x)),
                        e!(exp(x) - exp(y)), e!(ln("1.1") * 3 % y), e!(pi), e!(e), e!(ln_2), e!(ln_10), e!(sin(exp(x) + pi)),
                    ]);
                }
                v
            }
            // a number has 64 bits of guard at least
            let consts = p < 1000 || p >= limit - 64;
            let v = if i[4] == 0 {
                all(&x, &y, consts, &mut Context::new(p, rm, Consts::new().unwrap(), EXPONENT_MIN, EXPONENT_MAX))
            } else {
                all(&x, &y, consts, &mut (p, rm, &mut Consts::new().unwrap()))
            };
            for (n, v) in v {
                let c = match v.as_raw_parts() {
                    None => Ok(true),
                    Some(_) if v.is_zero() => Ok(false),
                    Some((m, _, _, _, _)) if p > 0 && p < 1000 && m.len() <= 2 && m.last().unwrap() >> 63 == 1 => Ok(false),
                    _ => Err(format!("got {}", show(&v))),
                };
                w.sub(c, || n.into());
            }
        },
    );
}

pub fn c27(r: &Run) {
    *r.rule.lock().unwrap() =
        "a case is non-trivial when a setting was changed or a result left the exponent range of the context".into();
    settings(r);
    histories(r);
    flush(r);
    unusable(r);
    limits(r);
}
