//! C24: every public function returns for every argument.

use crate::core::*;
use crate::edges::canon;
use crate::iso::*;
use crate::mem::with_limit;
use crate::ops::{self, is_mem_error, radix, Res, A, CC, N, OPS, P, R, S, X, Y, Z};
use crate::oracle::*;
use crate::prim::LIMIT;
use astro_float_num::{BigFloat, Error, Exponent, RoundingMode as RM, Sign, EXPONENT_MAX, EXPONENT_MIN};

/// numbers at the boundaries of the representation
pub fn numbers24(level: usize) -> Vec<BigFloat> {
    let d = |n: i64, s: i64, p: usize| encode(&Dy { neg: n < 0, m: rug::Integer::from(n.abs()), e: -s }, p);
    let mut nz = BigFloat::new(64);
    nz.inv_sign();
    let mut ix = d(3, 1, 64);
    ix.set_inexact(true);
    let mut v = vec![
        BigFloat::new(64),
        nz,
        BigFloat::new(0),
        d(1, 0, 64),
        d(-1, 0, 128),
        ix,
        mk(&[1, 1 << 63], false, 1),
        BigFloat::max_value(64),
        BigFloat::min_value(128),
        BigFloat::min_positive(64),
        BigFloat::min_positive(128).neg(),
        BigFloat::min_positive_normal(64),
        mk(&[u64::MAX], true, 0),
        mk(&[1 << 63], false, EXPONENT_MAX),
        astro_float_num::INF_POS,
        astro_float_num::INF_NEG,
        astro_float_num::NAN,
        BigFloat::nan(Some(Error::DivisionByZero)),
    ];
    if level > 0 {
        v.extend([
            BigFloat::new(65),
            mk(&[0, 1], false, EXPONENT_MIN),
            mk(&[u64::MAX, u64::MAX >> 1], false, EXPONENT_MIN),
            mk(&[u64::MAX, u64::MAX, u64::MAX], false, EXPONENT_MIN + 1),
            mk(&[1, 0, 1 << 63], true, 64),
            mk(&[1 << 63], false, 129),
            mk(&[1 << 63], true, -200),
            mk(&[1 << 63], false, 1 << 20),
            d(5, 1, 64),
            mk(&[0xaaaa_aaaa_aaaa_aaaa, 0xaaaa_aaaa_aaaa_aaaa], false, 2),
        ]);
    }
    if level > 1 {
        for w in [3usize, 5] {
            for e in [EXPONENT_MIN, EXPONENT_MIN + 70, -1, 0, 1, 64, 190, EXPONENT_MAX - 1, EXPONENT_MAX] {
                let mut m = vec![u64::MAX; w];
                m[0] = 1;
                m[w / 2] = 0;
                v.push(mk(&m, w == 5, e));
            }
        }
        v.push(mk(&[0, 0, 1], false, EXPONENT_MIN));
        v.push(mk(&[1, 0, 0], true, EXPONENT_MIN));
    }
    v
}

fn precs(level: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 63, 64, 65, 128, LIMIT - 1, LIMIT, LIMIT + 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 63, usize::MAX];
    if level > 0 {
        v.extend([2, 127, 129, 192, 1 << 33, 1 << 40, LIMIT - 64, LIMIT + 64, isize::MAX as usize - 63, usize::MAX - 64, usize::MAX - 62, usize::MAX - 1]);
    }
    v
}

fn counts(name: &str, level: usize) -> Vec<u64> {
    let mut v: Vec<u64> = match name {
        "format" | "convert_to_radix" | "parse" => vec![0, 1, 2, 3],
        "set_sign" | "set_inexact" => vec![0, 1],
        "set_exponent" | "from_words" => vec![0, 1, EXPONENT_MAX as i64 as u64, EXPONENT_MIN as i64 as u64, (EXPONENT_MIN + 1) as i64 as u64, (EXPONENT_MIN + 63) as i64 as u64],
        "from_f64" | "from_prims" => vec![0, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 1, u64::MAX, f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits()],
        "from_f32" => vec![0, 1 << 31, f32::NAN.to_bits() as u64, f32::INFINITY.to_bits() as u64, 1, u32::MAX as u64, f32::MAX.to_bits() as u64],
        "from_word" | "from_ints" => vec![0, 1, 127, 128, 255, 1 << 31, 1 << 63, u64::MAX],
        "from_raw_parts" => vec![0, 1, u64::MAX, 64, (-64i64) as u64],
        _ => vec![0, 1, 2, 3, 63, 64, 65, 128, i64::MAX as u64, 1 << 63, u64::MAX - 63, u64::MAX],
    };
    if level > 0 && name == "powi" {
        v.extend([5, 1 << 31, 1 << 32, i64::MAX as u64 - 1, u64::MAX - 1]);
    }
    v
}

/// No precision can be reported other than with an error. 0 and everything below the limit are usable.
fn unusable(p: usize) -> bool {
    p >= LIMIT
}

fn check(res: &Res, c: &str, x: &BigFloat, y: &BigFloat, f: u32, p: usize) -> Result<bool, String> {
    let bs: Vec<&BigFloat> = match res {
        Res::B(b) => vec![b],
        Res::F(_, b) => vec![b],
        Res::L(v) => v.iter().collect(),
        Res::D(Ok((_, d, _))) if d.len() > 1 << 22 => return Err("too many digits".into()),
        _ => vec![],
    };
    for b in &bs {
        canon(b)?;
    }
    if let [b] = bs[..] {
        // finite arguments and an unusable precision: never a number
        let fin = |v: &BigFloat| !v.is_inf() && !v.is_nan();
        let args = (f & X == 0 || fin(x)) && (f & Y == 0 || fin(y));
        let lazy = ["parse", "convert_from_radix"].contains(&c) && p == usize::MAX;
        if f & P != 0 && unusable(p) && args && !lazy && !b.is_nan() && !b.is_inf() && !["from_f64", "from_f32", "parse"].contains(&c) {
            return Err(format!("unusable precision {} accepted: {}", p, show_big(b)));
        }
    }
    Ok(!is_mem_error(res))
}

fn show_big(b: &BigFloat) -> String {
    if b.mantissa_max_bit_len().unwrap_or(0) > 4096 {
        "a large number".into()
    } else {
        show(b)
    }
}

fn modes(level: usize, f: u32) -> Vec<RM> {
    if f & R == 0 {
        vec![RM::None]
    } else if level > 0 {
        RMS7.to_vec()
    } else {
        vec![RM::ToEven, RM::None, RM::Up]
    }
}

const RMS7: [RM; 7] = [RM::ToEven, RM::None, RM::Up, RM::Down, RM::ToZero, RM::FromZero, RM::ToOdd];

/// largest single allocation allowed: bigger results are reported as allocation failures
const CAP: usize = 96 << 10;

pub fn c24(r: &Run) {
    *r.rule.lock().unwrap() = "Every public operation is executed on the whole cross product of boundary arguments (numbers at the boundaries of the representation, precisions around zero, the word size, the limit and the integer range, extreme counts, exponents and bit lengths, special and malformed text, inconsistent raw data), each case in a child process with a time limit; allocations above a cap fail, so that absurd sizes are answered at once. Verdict: the call returns (no panic, no failed assertion or overflow, no crash, no hang), every returned number is canonical, and no number comes out for an unusable precision.".into();
    let level = r.t(1, 2);
    let cap = if level > 1 { 3 << 20 } else { CAP };
    r.assumptions.lock().unwrap().push(format!("Allocations above {} bytes fail, so behaviour that needs larger numbers is not explored here.", cap));
    let xs = numbers24(level);
    let ps = precs(level);
    let mut cs: Vec<(usize, usize, usize)> = vec![];
    for (o, (name, f)) in OPS.iter().enumerate() {
        if f & S != 0 {
            continue;
        }
        for i in 0..if f & X != 0 { xs.len() } else { 1 } {
            for j in 0..if f & Y != 0 { xs.len() } else { 1 } {
                let _ = name;
                cs.push((o, i, j));
            }
        }
    }
    let (xr, pr, cr) = (&xs, &ps, &cs);
    isolated(
        r,
        "boundary",
        cs.len() as u64,
        r.t(60, 200),
        |i| {
            let (o, a, b) = cr[i as usize];
            format!("{} x={} y={}", OPS[o].0, show(&xr[a]), show(&xr[b]))
        },
        |i, out| {
            let (o, a, b) = cr[i as usize];
            let (name, f) = OPS[o];
            let mut cc = astro_float_num::Consts::new().expect("cache");
            let zs: Vec<usize> = if f & Z != 0 { (0..xr.len()).collect() } else { vec![0] };
            let mut k = 0;
            for &p in if f & P != 0 { &pr[..] } else { &pr[..1] } {
                for &n in &if f & N != 0 { counts(name, level) } else { vec![0] } {
                    for rm in modes(level, f) {
                        for &z in &zs {
                            k += 1;
                            out.step(k);
                            let g = guard(|| with_limit(cap, || ops::apply(o, &A { x: &xr[a], y: &xr[b], z: &xr[z], p, rm, n, s: "" }, &mut cc)));
                            let v = match &g {
                                Err(e) => Err(e.clone()),
                                Ok(res) => check(res, name, &xr[a], &xr[b], f, p),
                            };
                            out.w.sub(v, || format!("p={} n={} {:?} z={}", p, n, rm, show(&xr[z])));
                        }
                    }
                }
            }
        },
    );
    // text
    let long9 = "9".repeat(5000);
    let longz = format!("0.{}1", "0".repeat(5000));
    let longe = format!("1e{}", "9".repeat(400));
    let longm = format!("1e-{}", "9".repeat(400));
    let big = "1".repeat(100_000);
    let mut strs: Vec<&str> = vec![
        "", "+", "-", ".", "e", "E", "e5", "1e", "1e+", "1e-", "--1", "+-1", "+.e", ".e1", "0x1", " 1", "1 ", "1..", "..1", "1e5.5", "1ee5", "n", "na", "nan", "NaN", "-nan", "i", "in", "inf", "Inf", "-Inf", "+inf", "infinity", "Infinity",
        "é", "1é", "é1", "\u{ff11}", "\0", "1\0", "_", "_e", "1_e", "1_e5", "1_e-", "_e+1", "g", "z", "0", "-0", "00", ".0", "0.", "-.0e-0", "1e2147483647", "1e2147483648", "1e-2147483648", "1e-2147483649", "1e-2147483700", "1e9223372036854775807", "1e-9223372036854775808",
        "1e99999999999999999999", "0e99999999999999999999", "-1e-99999999999999999999", "1_e7fffffff", "1_e80000000", "1_e-80000000", "1_e-80000001", "1_effffffffffffffffff", "1e1111111111111111111111111111111", "1e-10000000000000000000000000000000", "1e10000000000000000000000000000000000000000000000000000000000000000000",
        "1e17777777777", "1e20000000000", "1e-20000000000",
    ];
    let extra = [long9.as_str(), &longz, &longe, &longm, &big];
    strs.extend(extra);
    let sr = &strs;
    let ops_s: Vec<usize> = (0..OPS.len()).filter(|&o| OPS[o].1 & S != 0 && OPS[o].0 != "convert_from_radix").collect();
    let or = &ops_s;
    isolated(
        r,
        "text",
        (strs.len() * ops_s.len()) as u64,
        r.t(60, 200),
        |i| format!("{} {:.60?}", OPS[or[i as usize % or.len()]].0, sr[i as usize / or.len()]),
        |i, out| {
            let o = or[i as usize % or.len()];
            let s = sr[i as usize / or.len()];
            let (name, f) = OPS[o];
            let mut cc = astro_float_num::Consts::new().expect("cache");
            let z = BigFloat::new(64);
            let mut k = 0;
            for &p in if f & P != 0 { &pr[..] } else { &pr[..1] } {
                for &n in &if f & N != 0 { counts(name, level) } else { vec![0] } {
                    for rm in modes(level, f) {
                        k += 1;
                        out.step(k);
                        let g = guard(|| with_limit(cap << 4, || ops::apply(o, &A { x: &z, y: &z, z: &z, p, rm, n, s }, &mut cc)));
                        let v = match &g {
                            Err(e) => Err(e.clone()),
                            Ok(res) => check(res, name, &z, &z, f, p),
                        };
                        out.w.sub(v, || format!("p={} radix={} {:?}", p, n, rm));
                    }
                }
            }
        },
    );
    // digits of a radix
    let digs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0, 0], vec![1], vec![0, 1], vec![1, 0], vec![9], vec![1, 2], vec![255], vec![1, 16], vec![7; 100], vec![1; 3000], vec![0; 3000], { let mut v = vec![0; 500]; v.push(1); v }];
    let es: Vec<Exponent> = vec![0, 1, -1, 63, -64, 1000, EXPONENT_MAX, EXPONENT_MAX - 1, EXPONENT_MIN, EXPONENT_MIN + 1, EXPONENT_MIN / 3, EXPONENT_MIN / 4, EXPONENT_MAX / 3, EXPONENT_MAX / 4 + 1];
    let (dr, er) = (&digs, &es);
    isolated(
        r,
        "digits",
        (digs.len() * es.len()) as u64,
        r.t(60, 200),
        |i| format!("convert_from_radix {:?}.. ({}) e={}", &dr[i as usize / er.len()][..dr[i as usize / er.len()].len().min(5)], dr[i as usize / er.len()].len(), er[i as usize % er.len()]),
        |i, out| {
            let (d, e) = (&dr[i as usize / er.len()], er[i as usize % er.len()]);
            let mut cc = astro_float_num::Consts::new().expect("cache");
            let z = BigFloat::new(64);
            let mut k = 0;
            for &p in pr {
                for n in 0..4 {
                    for rm in modes(level, R) {
                        for s in [Sign::Pos, Sign::Neg] {
                            k += 1;
                            out.step(k);
                            let g = guard(|| with_limit(cap, || BigFloat::convert_from_radix(s, d, e, radix(n), p, rm, &mut cc)));
                            let v = match g {
                                Err(e) => Err(e),
                                Ok(b) => {
                                    let base = [10, 2, 8, 16][n as usize];
                                    if d.iter().any(|&v| v >= base) && !b.is_nan() && !b.is_inf() && !b.is_zero() {
                                        Err(format!("invalid digits accepted: {}", show_big(&b)))
                                    } else {
                                        check(&Res::B(b), "convert_from_radix", &z, &z, P, p)
                                    }
                                }
                            };
                            out.w.sub(v, || format!("p={} radix={} {:?} {:?}", p, n, rm, s));
                        }
                    }
                }
            }
        },
    );
    // raw data
    let h = 1u64 << 63;
    let ms: Vec<Vec<u64>> = vec![vec![], vec![0], vec![1], vec![h], vec![u64::MAX], vec![0, 0], vec![1, 0], vec![0, 1], vec![0, h], vec![h, 0], vec![u64::MAX, h], vec![1, 0, h], vec![0, 0, 1]];
    let bl: Vec<usize> = vec![0, 1, 2, 63, 64, 65, 127, 128, 129, 192, 193, usize::MAX, usize::MAX - 63];
    let re: Vec<Exponent> = vec![0, 1, -1, 64, EXPONENT_MAX, EXPONENT_MIN, EXPONENT_MIN + 1, EXPONENT_MIN + 63, EXPONENT_MIN + 64, EXPONENT_MIN + 128];
    let (mr, br, rr) = (&ms, &bl, &re);
    let users: Vec<usize> = OPS.iter().enumerate().filter(|(_, o)| o.1 & X != 0).map(|o| o.0).collect();
    let ur = &users;
    isolated(
        r,
        "raw",
        (ms.len() * bl.len() * re.len()) as u64,
        r.t(60, 200),
        |i| {
            let i = i as usize;
            format!("from_raw_parts {:x?} bits {} e={}", mr[i / rr.len() / br.len()], br[i / rr.len() % br.len()], rr[i % rr.len()])
        },
        |i, out| {
            let i = i as usize;
            let (m, b, e) = (&mr[i / rr.len() / br.len()], br[i / rr.len() % br.len()], rr[i % rr.len()]);
            let mut cc = astro_float_num::Consts::new().expect("cache");
            let y = encode(&Dy { neg: false, m: rug::Integer::from(3), e: -1 }, 128);
            let mut k = 0;
            for s in [Sign::Pos, Sign::Neg] {
                for inex in [false, true] {
                    let mut made = vec![guard(|| BigFloat::from_raw_parts(m, b, s, e, inex))];
                    if b == 0 {
                        made.push(guard(|| BigFloat::from_words(m, s, e)));
                    }
                    for g in made {
                        k += 1;
                        out.step(k);
                        let x = match g {
                            Err(e) => {
                                out.w.sub(Err(e), || format!("{:?} {}", s, inex));
                                continue;
                            }
                            Ok(x) => x,
                        };
                        out.w.sub(canon(&x).map(|_| !x.is_nan()), || format!("{:?} {} result {}", s, inex, show(&x)));
                        if x.is_nan() {
                            continue;
                        }
                        for &o in ur {
                            k += 1;
                            out.step(k);
                            let g = guard(|| with_limit(cap, || ops::apply(o, &A { x: &x, y: &y, z: &y, p: 128, rm: RM::ToEven, n: 1, s: "" }, &mut cc)));
                            let v = match &g {
                                Err(e) => Err(e.clone()),
                                Ok(res) => check(res, OPS[o].0, &x, &y, OPS[o].1, 128),
                            };
                            out.w.sub(v, || format!("{:?} {} then {}", s, inex, OPS[o].0));
                        }
                    }
                }
            }
        },
    );
}
