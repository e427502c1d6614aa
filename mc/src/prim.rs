//! C13: construction from primitive values.
use crate::core::*;
use crate::oracle::*;
use astro_float_num::{BigFloat, Consts, FromExt, Word, EXPONENT_MAX, EXPONENT_MIN, INF_NEG, INF_POS, NAN};

/// exact comparison with (-1)^neg * mag * 2^e2
#[inline]
pub fn exact(b: &BigFloat, neg: bool, mag: u128, e2: i64, p: usize) -> bool {
    let n = rp(p) / WB;
    let (w, bits, s, e, inexact) = match b.as_raw_parts() {
        Some(v) => v,
        None => return false,
    };
    if w.len() != n || inexact || (s == astro_float_num::Sign::Neg) != neg {
        return false;
    }
    if mag == 0 {
        return bits == 0 && b.is_zero() && e == 0 && w.iter().all(|x| *x == 0);
    }
    let lz = mag.leading_zeros();
    let norm = mag << lz;
    let (h, l) = ((norm >> 64) as Word, norm as Word);
    if bits != n * WB || w[n - 1] != h || e as i64 != 128 - lz as i64 + e2 {
        return false;
    }
    if n == 1 {
        return l == 0;
    }
    w[n - 2] == l && w[..n - 2].iter().all(|x| *x == 0)
}

fn verdict(b: &BigFloat, neg: bool, mag: u128, e2: i64, p: usize, src: usize) -> Result<bool, String> {
    if p == 0 || p >= LIMIT {
        // an unusable precision
        return if is_err(b, &["invalid", "mem"]) || (p == 0 && mag == 0) { Ok(true) } else { Err(format!("got {} want an error", show(b))) };
    }
    let bits = 128 - mag.leading_zeros() as usize - if mag == 0 { 0 } else { mag.trailing_zeros() as usize };
    if exact(b, neg, mag, e2, p.max(1)) {
        return Ok(true);
    }
    if p < src && is_err(b, &["invalid"]) {
        return Ok(false);
    }
    Err(format!("got {} want {}{:#x}*2^{} ({} bits) at precision {}", show(b), if neg { "-" } else { "" }, mag, e2, bits, p))
}

thread_local! {
    static CCS: std::cell::RefCell<Consts> = std::cell::RefCell::new(Consts::new().unwrap());
}

pub const LIMIT: usize = (isize::MAX / 2 + EXPONENT_MIN as isize) as usize;

/// bit patterns: a run of ones from bit i to bit j, all with neighbours
fn runs(w: u32) -> Vec<u128> {
    let mut v = vec![0u128];
    let max: u128 = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    for i in 0..w {
        for j in i..w {
            let hi = if j == 127 { u128::MAX } else { (1u128 << (j + 1)) - 1 };
            let r = hi & !((1u128 << i) - 1);
            v.push(r);
            v.push(r ^ 1);
            v.push(r.saturating_add(1).min(max));
        }
    }
    v.push(0x9E37_79B9_7F4A_7C15_D1B5_4A32_D192_ED03 & max);
    v.push(0x5555_5555_5555_5555_5555_5555_5555_5555 & max);
    v.push(0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA & max);
    for x in v.iter_mut() {
        *x &= max;
    }
    v.sort();
    v.dedup();
    v
}

const PS: [usize; 15] = [1, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 321];

macro_rules! int_space {
    ($r:expr, $t:ty, $from:ident, $vals:expr) => {{
        let vals: Vec<u128> = $vals;
        let src = std::mem::size_of::<$t>() * 8;
        $r.space(
            stringify!($from),
            &[vals.len()],
            |i| format!("{:#x}", vals[i[0]]),
            |i, w| {
                let v = vals[i[0]] as $t;
                #[allow(unused_comparisons)]
                let neg = v < 0;
                let mag: u128 = if neg { (v as i128).unsigned_abs() } else { v as u128 };
                for p in PS.iter().copied().chain([0, LIMIT, usize::MAX]) {
                    let b = BigFloat::$from(v, p);
                    let c = verdict(&b, neg, mag, 0, p, src);
                    w.sub(c, || format!("{}({}, {})", stringify!($from), v, p));
                }
                let b = BigFloat::from(v);
                let c = verdict(&b, neg, mag, 0, 128, 128);
                w.sub(c, || format!("From<{}>({})", stringify!($t), v));
            },
        );
    }};
}

fn f64_parts(u: u64) -> (bool, u128, i64) {
    let e = ((u >> 52) & 0x7ff) as i64;
    let m = u & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    (u >> 63 == 1, m as u128, e)
}

fn f32_parts(u: u32) -> (bool, u128, i64) {
    let e = ((u >> 23) & 0xff) as i64;
    let m = u & ((1 << 23) - 1);
    let (m, e) = if e == 0 { (m, -149) } else { (m | 1 << 23, e - 150) };
    (u >> 31 == 1, m as u128, e)
}

fn chk_f32(u: u32, p: usize, w: &mut W) {
    let f = f32::from_bits(u);
    let b = BigFloat::from_f32(f, p);
    w.count(true);
    let ok = if f.is_nan() {
        b.is_nan()
    } else if f.is_infinite() {
        if f > 0.0 { b.is_inf_pos() } else { b.is_inf_neg() }
    } else {
        let (neg, m, e) = f32_parts(u);
        exact(&b, neg, m, e, p)
    };
    if !ok {
        w.fail(format!("from_f32({:e} = {:#x}, {}) => got {}", f, u, p, show(&b)));
    }
}

pub fn c13(r: &Run) {
    *r.rule.lock().unwrap() = "Every value of the small integer types, boundary patterns of the large ones (every run of equal bits and its neighbours), every sign and exponent of f32 and f64 with mantissa patterns (thorough: every f32), each at every precision of the list; constants at every precision up to a bound. Each is compared with the exact value.".into();
    r.assumptions.lock().unwrap().push("A precision below the width of the source type may be rejected as incorrect; zero of length 0 is what precision 0 yields.".into());
    int_space!(r, u8, from_u8, (0..256).collect());
    int_space!(r, i8, from_i8, (0..256).collect());
    int_space!(r, u16, from_u16, (0..65536).collect());
    int_space!(r, i16, from_i16, (0..65536).collect());
    int_space!(r, u32, from_u32, runs(32));
    int_space!(r, i32, from_i32, runs(32));
    int_space!(r, u64, from_u64, runs(64));
    int_space!(r, i64, from_i64, runs(64));
    int_space!(r, u128, from_u128, runs(128));
    int_space!(r, i128, from_i128, runs(128));
    let v = runs(64);
    r.space(
        "from_word",
        &[v.len()],
        |i| format!("{:#x}", v[i[0]]),
        |i, w| {
            for p in PS.iter().copied().chain([0, LIMIT, usize::MAX]) {
                let b = BigFloat::from_word(v[i[0]] as Word, p);
                let c = verdict(&b, false, v[i[0]], 0, p, 1);
                w.sub(c, || format!("from_word({:#x}, {})", v[i[0]], p));
            }
        },
    );
    // f32: every sign and exponent, upper 16 mantissa bits complete, lower 7 bits at their ends
    if r.quick() {
        r.space(
            "f32",
            &[512, 256],
            |i| format!("sign+exp={:#x} block={}", i[0], i[1]),
            |i, w| {
                for k in 0..256u32 {
                    for l in [0u32, 1, 0x40, 0x7f] {
                        let u = (i[0] as u32) << 23 | (i[1] as u32) << 15 | k << 7 | l;
                        chk_f32(u, 64, w);
                    }
                }
            },
        );
    } else {
        r.space(
            "f32-all",
            &[1 << 16],
            |i| format!("high half={:#x}", i[0]),
            |i, w| {
                for k in 0..65536u32 {
                    chk_f32((i[0] as u32) << 16 | k, 64, w);
                }
            },
        );
        r.space(
            "u32-all",
            &[1 << 16],
            |i| format!("high half={:#x}", i[0]),
            |i, w| {
                for k in 0..65536u32 {
                    let u = (i[0] as u32) << 16 | k;
                    let b = BigFloat::from_u32(u, 64);
                    w.count(true);
                    if !exact(&b, false, u as u128, 0, 64) {
                        w.fail(format!("from_u32({}) => got {}", u, show(&b)));
                    }
                    let s = u as i32;
                    let b = BigFloat::from_i32(s, 64);
                    w.count(true);
                    if !exact(&b, s < 0, s.unsigned_abs() as u128, 0, 64) {
                        w.fail(format!("from_i32({}) => got {}", s, show(&b)));
                    }
                }
            },
        );
    }
    let m32 = runs(23);
    r.space(
        "f32-precisions",
        &[512, m32.len()],
        |i| format!("sign+exp={:#x} m={:#x}", i[0], m32[i[1]]),
        |i, w| {
            let u = (i[0] as u32) << 23 | m32[i[1]] as u32;
            for p in [1, 32, 65, 128, 192] {
                chk_f32(u, p, w);
            }
            let f = f32::from_bits(u);
            if f.is_finite() {
                let (neg, m, e) = f32_parts(u);
                let b = BigFloat::from(f);
                w.sub(verdict(&b, neg, m, e, 128, 1), || format!("From<f32>({:e})", f));
            }
        },
    );
    let m64 = runs(52);
    r.space(
        "f64",
        &[4096, m64.len()],
        |i| format!("sign+exp={:#x} m={:#x}", i[0], m64[i[1]]),
        |i, w| {
            let u = (i[0] as u64) << 52 | m64[i[1]] as u64;
            let f = f64::from_bits(u);
            let n = i[0] + i[1];
            for p in [[1, 64], [192, 65], [127, 53]][n % 3] {
                let b = BigFloat::from_f64(f, p);
                w.count(true);
                let ok = if f.is_nan() {
                    is_err(&b, &["invalid", "none"])
                } else if f.is_infinite() {
                    if f > 0.0 { b.is_inf_pos() } else { b.is_inf_neg() }
                } else {
                    let (neg, m, e) = f64_parts(u);
                    exact(&b, neg, m, e, p)
                };
                if !ok {
                    w.fail(format!("from_f64({:e} = {:#x}, {}) => got {}", f, u, p, show(&b)));
                }
            }
            if f.is_finite() {
                let (neg, m, e) = f64_parts(u);
                let b = BigFloat::from(f);
                w.sub(verdict(&b, neg, m, e, 128, 1), || format!("From<f64>({:e})", f));
            }
        },
    );
    // conversion with a precision and a rounding mode: the source rounded once
    let v64 = runs(64);
    let v128: Vec<u128> = runs(128).into_iter().step_by(r.t(7, 1)).collect();
    let ps = [1usize, 2, 7, 23, 24, 52, 53, 54, 63, 64, 65, 100, 127, 128, 129, 192, 321];
    r.space(
        "from-ext",
        &[v64.len().max(v128.len()), ps.len()],
        |i| format!("value number {} p={}", i[0], ps[i[1]]),
        |i, w| {
            let p = ps[i[1]];
            CCS.with(|cc| {
                let cc = &mut *cc.borrow_mut();
                for rm in RMS {
                    let mut t = |x: BigFloat, y: BigFloat, what: String| {
                        let c = crate::edges::set_prec_case(&y, p, rm, Cmp { flag: true, zero_sign: true });
                        let mut z = y.clone();
                        let c = c.and_then(|nt| if z.set_precision(p, rm).is_ok() && ident(&x, &z) { Ok(nt) } else { Err(format!("got {} want {}", show(&x), show(&z))) });
                        w.sub(c, || format!("from_ext({}, {}, {:?})", what, p, rm));
                    };
                    if i[0] < v64.len() {
                        let v = v64[i[0]] as u64;
                        t(BigFloat::from_ext(v, p, rm, cc), BigFloat::from(v), format!("{:#x}u64", v));
                        t(BigFloat::from_ext(v as i64, p, rm, cc), BigFloat::from(v as i64), format!("{}i64", v as i64));
                        t(BigFloat::from_ext(v as i32, p, rm, cc), BigFloat::from(v as i32), format!("{}i32", v as i32));
                        t(BigFloat::from_ext(v as u8, p, rm, cc), BigFloat::from(v as u8), format!("{}u8", v as u8));
                        let f = f64::from_bits(v);
                        if f.is_finite() {
                            t(BigFloat::from_ext(f, p, rm, cc), BigFloat::from(f), format!("{:e}", f));
                        }
                        let f = f32::from_bits(v as u32);
                        if f.is_finite() {
                            t(BigFloat::from_ext(f, p, rm, cc), BigFloat::from(f), format!("{:e}f32", f));
                        }
                        let s = v.to_string();
                        let x = BigFloat::from_ext(s.as_str(), p, rm, cc);
                        let y = BigFloat::from(v);
                        let mut z = y.clone();
                        z.set_precision(rp(p), rm).unwrap();
                        w.sub(if x.cmp(&z) == Some(0) && x.mantissa_max_bit_len() == z.mantissa_max_bit_len() { Ok(true) } else { Err(format!("got {} want {}", show(&x), show(&z))) }, || format!("from_ext(\"{}\", {}, {:?})", s, p, rm));
                    }
                    if i[0] < v128.len() {
                        let v = v128[i[0]];
                        let mut t = |x: BigFloat, y: BigFloat, what: String| {
                            let c = crate::edges::set_prec_case(&y, p, rm, Cmp { flag: true, zero_sign: true });
                            let mut z = y.clone();
                            let c = c.and_then(|nt| if z.set_precision(p, rm).is_ok() && ident(&x, &z) { Ok(nt) } else { Err(format!("got {} want {}", show(&x), show(&z))) });
                            w.sub(c, || format!("from_ext({}, {}, {:?})", what, p, rm));
                        };
                        t(BigFloat::from_ext(v, p, rm, cc), BigFloat::from(v), format!("{:#x}u128", v));
                        t(BigFloat::from_ext(v as i128, p, rm, cc), BigFloat::from(v as i128), format!("{}i128", v as i128));
                    }
                }
            });
        },
    );
    // unusable precisions
    let bad = [0usize, LIMIT, LIMIT + 1, usize::MAX / 2, usize::MAX - 63, usize::MAX - 1, usize::MAX];
    let fs = [0.0f64, -0.0, 1.0, -2.5, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    r.space(
        "float-bad-precision",
        &[bad.len(), fs.len()],
        |i| format!("p={} f={}", bad[i[0]], fs[i[1]]),
        |i, w| {
            let (p, f) = (bad[i[0]], fs[i[1]]);
            for b in [BigFloat::from_f64(f, p), BigFloat::from_f32(f as f32, p)] {
                let c = if b.is_nan() || (p == 0 && (b.is_inf() || f == 0.0 || f as f32 == 0.0)) { Ok(true) } else { Err(format!("got {} want NaN", show(&b))) };
                w.sub(c, || "".into());
            }
        },
    );
    // constants
    let n = r.t(1100usize, 20000);
    r.space(
        "constants",
        &[n],
        |i| format!("p={}", i[0] + 1),
        |i, w| {
            let p = i[0] + 1;
            let n = rp(p) / WB;
            let mut one = vec![0 as Word; n];
            one[0] = 1;
            let mut top = vec![0 as Word; n];
            top[n - 1] = 1 << (WB - 1);
            let cases = [
                ("max_value", BigFloat::max_value(p), Val::Num { neg: false, words: vec![Word::MAX; n], e: EMAX, inexact: false }),
                ("min_value", BigFloat::min_value(p), Val::Num { neg: true, words: vec![Word::MAX; n], e: EMAX, inexact: false }),
                ("min_positive", BigFloat::min_positive(p), Val::Num { neg: false, words: one, e: EMIN, inexact: false }),
                ("min_positive_normal", BigFloat::min_positive_normal(p), Val::Num { neg: false, words: top, e: EMIN, inexact: false }),
                ("new", BigFloat::new(p), Val::Num { neg: false, words: vec![0; n], e: 0, inexact: false }),
            ];
            for (k, b, v) in cases {
                let c = if same(&b, &v, Cmp { flag: true, zero_sign: true }) { Ok(true) } else { Err(format!("got {} want {}", show(&b), showv(&v))) };
                w.sub(c, || k.into());
            }
        },
    );
    r.space(
        "named",
        &[1],
        |_| "named constants".into(),
        |_, w| {
            let t = |b: bool, n: &str| if b { Ok(true) } else { Err(n.to_string()) };
            w.sub(t(EXPONENT_MAX == i32::MAX && EXPONENT_MIN == i32::MIN, "exponent limits"), || "EXPONENT_MAX, EXPONENT_MIN".into());
            w.sub(t(INF_POS.is_inf_pos() && INF_NEG.is_inf_neg(), "INF"), || "INF_POS, INF_NEG".into());
            w.sub(t(NAN.is_nan() && NAN.err().is_none(), "NAN"), || "NAN".into());
            w.sub(t(exact(&BigFloat::default(), false, 0, 0, 128), "default"), || "default".into());
            w.sub(t(astro_float_num::WORD_SIGNIFICANT_BIT == 1 << 63 && astro_float_num::WORD_BASE == 1u128 << 64 && astro_float_num::WORD_MAX == u64::MAX, "word constants"), || "WORD_*".into());
        },
    );
}
