//! Text and radix conversion: C14, C15, C16.
use crate::alpha::*;
use crate::core::*;
use crate::oracle::*;
use astro_float_num::{BigFloat, Consts, Exponent, Radix, RoundingMode as RM, Sign, EXPONENT_MAX, EXPONENT_MIN};
use gmp_mpfr_sys::mpfr;
use rug::{Float, Integer};

pub const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

fn base(r: Radix) -> u32 {
    r as u32
}

fn log2(r: Radix) -> u32 {
    match r {
        Radix::Bin => 1,
        Radix::Oct => 3,
        Radix::Hex => 4,
        Radix::Dec => 0,
    }
}

/// What a text denotes.
#[derive(Clone, Debug)]
pub enum Tx {
    Nan,
    Inf(bool),
    /// (-1)^neg * d * rdx^e; `first` is the exponent of the number written as 0.ddd
    Num { neg: bool, d: Integer, e: i64, first: i64, len: usize },
}

const BIG: i64 = 1 << 50;

/// Independent reading of the number syntax: [+-] digits [. digits] [e [+-] digits], inf, nan.
/// Anything else is not a number.
pub fn read(s: &str, rdx: Radix) -> Tx {
    let b: Vec<char> = s.chars().map(|c| c.to_ascii_lowercase()).collect();
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == '+' || b[i] == '-') {
        neg = b[i] == '-';
        i += 1;
    }
    let rest: String = b[i..].iter().collect();
    if rest == "inf" || rest == "infinity" {
        return Tx::Inf(neg);
    }
    if rest == "nan" {
        return Tx::Nan;
    }
    let dig = |c: char| if c.is_ascii() { c.to_digit(base(rdx)) } else { None };
    let mut digits: Vec<u8> = vec![];
    let mut ints = 0;
    let mut frac = 0;
    while i < b.len() {
        match dig(b[i]) {
            Some(d) => digits.push(d as u8),
            None => break,
        }
        ints += 1;
        i += 1;
    }
    if i < b.len() && b[i] == '.' {
        i += 1;
        while i < b.len() {
            match dig(b[i]) {
                Some(d) => digits.push(d as u8),
                None => break,
            }
            frac += 1;
            i += 1;
        }
    }
    if ints + frac == 0 {
        return Tx::Nan;
    }
    let mut e: i64 = 0;
    let mark = if rdx == Radix::Hex {
        if i + 1 < b.len() && b[i] == '_' && b[i + 1] == 'e' {
            i += 2;
            true
        } else {
            false
        }
    } else if i < b.len() && b[i] == 'e' {
        i += 1;
        true
    } else {
        false
    };
    if mark {
        let mut eneg = false;
        if i < b.len() && (b[i] == '+' || b[i] == '-') {
            eneg = b[i] == '-';
            i += 1;
        }
        while i < b.len() {
            match dig(b[i]) {
                Some(d) => e = (e * base(rdx) as i64 + d as i64).min(BIG),
                None => break,
            }
            i += 1;
        }
        if eneg {
            e = -e;
        }
    }
    if i != b.len() {
        return Tx::Nan;
    }
    let d = from_digits(&digits, rdx);
    let lead = digits.iter().take(ints).take_while(|x| **x == 0).count();
    Tx::Num { neg, d, e: e - frac as i64, first: e + (ints - lead) as i64, len: digits.len() - lead }
}

pub fn from_digits(digits: &[u8], rdx: Radix) -> Integer {
    let s: String = digits.iter().map(|d| char::from_digit(*d as u32, base(rdx)).unwrap()).collect();
    if s.is_empty() {
        Integer::new()
    } else {
        Integer::from_str_radix(&s, base(rdx) as i32).unwrap()
    }
}

/// 5^n truncated to a dyadic
fn pow5(n: u64, prec: usize) -> (Dy, bool) {
    if n <= 40000 {
        return (Dy::new(false, Integer::from(Integer::u_pow_u(5, n as u32)), 0), true);
    }
    let mut f = Float::new(prec as u32);
    let t = unsafe { mpfr::ui_pow_ui(f.as_raw_mut(), 5, n, mpfr::rnd_t::RNDZ) };
    (crate::trans::from_float(&f), t == 0)
}

/// d * rdx^e as lower and upper end of an interval: m*2^e2 with sticky
fn value(d: &Integer, rdx: Radix, e: i64, p: usize) -> Vec<(Integer, i64, bool)> {
    if *d == 0 {
        return vec![(Integer::new(), 0, false)];
    }
    let k = log2(rdx);
    if k > 0 {
        return vec![(d.clone(), e * k as i64, false)];
    }
    let prec = p + 192;
    let (t, exact) = pow5(e.unsigned_abs(), prec);
    let dd = Dy::new(false, d.clone(), 0);
    let (m, e2, st) = if e >= 0 {
        let x = dd.mul(&t);
        (x.m, x.e + e, false)
    } else {
        let (q, qe, st) = crate::arith::quot(&dd, &t, prec);
        (q, qe + e, st)
    };
    if exact {
        vec![(m, e2, st)]
    } else {
        // relative error of the power below 2^(1-prec): keep p+100 bits, the rest is an interval
        let cut = m.significant_bits() as i64 - (p as i64 + 96);
        let (m, e2) = if cut > 0 { (m >> cut as u32, e2 + cut) } else { (m << (-cut) as u32, e2 + cut) };
        vec![(m.clone() - 1, e2, true), (m + 1, e2, true)]
    }
}

const CMP: Cmp = Cmp { flag: true, zero_sign: true };

/// Compare a number with d * rdx^e rounded to p.
pub fn check_text(b: &BigFloat, neg: bool, d: &Integer, rdx: Radix, e: i64, p: usize, rm: RM) -> Result<bool, String> {
    let v = value(d, rdx, e, p);
    if v.len() == 2 {
        let (x, y) = (round_ref(neg, &v[0].0, v[0].1, true, p, rm), round_ref(neg, &v[1].0, v[1].1, true, p, rm));
        assert!(x == y, "oracle: the rounding of a power of ten is not determined");
    }
    if rm == RM::None {
        // one unit in the last place
        return crate::trans::check_ref(b, &crate::trans::Ref::Num { neg, m: v[0].0.clone(), e: v[0].1, sticky: v[0].2 }, p, rm, false, CMP);
    }
    // division by a power of ten may mark an exact result inexact, never the other way round
    let cmp = if rdx == Radix::Dec && b.inexact() { Cmp { flag: false, zero_sign: true } } else { CMP };
    check(b, neg, &v[0].0, v[0].1, v[0].2, p, rm, false, cmp)
}

/// Compare the result of parsing with the meaning of the text.
pub fn check_parse(b: &BigFloat, t: &Tx, rdx: Radix, p: usize, rm: RM) -> Result<bool, String> {
    match t {
        Tx::Nan => {
            if b.is_nan() {
                Ok(false)
            } else {
                Err(format!("got {} want NaN", show(b)))
            }
        }
        Tx::Inf(n) => {
            if (*n && b.is_inf_neg()) || (!*n && b.is_inf_pos()) {
                Ok(false)
            } else {
                Err(format!("got {} want {}Inf", show(b), if *n { "-" } else { "" }))
            }
        }
        Tx::Num { neg, d, e, len, .. } => {
            let q = if p == usize::MAX {
                // the precision must suffice for the digits
                let q = b.mantissa_max_bit_len();
                let need = (*len as f64 * (base(rdx) as f64).log2()).floor() as usize;
                let q = q.unwrap_or(rp(need.max(1)));
                if q < need.min(d.significant_bits() as usize) && *d != 0 {
                    return Err(format!("got precision {} for {} digits in radix {}", q, len, base(rdx)));
                }
                q
            } else {
                rp(p)
            };
            check_text(b, *neg, d, rdx, *e, q, rm)
        }
    }
}

pub fn parse_case(s: &str, rdx: Radix, ps: &[usize], rms: &[RM], w: &mut W) {
    let t = read(s, rdx);
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            let b = BigFloat::parse(s, rdx, p, rm, &mut w.cc);
            let c = check_parse(&b, &t, rdx, p, rm);
            w.sub(c, || {
                let q = if s.len() > 200 { format!("{}..({} chars)..{}", &s[..60], s.len(), &s[s.len() - 40..]) } else { s.to_string() };
                format!("parse({:?}, {:?}, {}, {:?})", q, rdx, if p == usize::MAX { -1 } else { p as i64 }, rm)
            });
        }
    }
}

fn digs(d: &Integer, rdx: Radix) -> String {
    d.to_string_radix(base(rdx) as i32)
}

/// digit strings with their interesting neighbours: runs, midpoints of 64 and 128 bit numbers
fn digit_strings(rdx: Radix, quick: bool) -> Vec<String> {
    let b = base(rdx);
    let mut v: Vec<String> = vec![];
    let top = char::from_digit(b - 1, b).unwrap();
    let mid = char::from_digit(b / 2, b).unwrap();
    let lens: Vec<usize> = if quick {
        (1..=24).chain([31, 32, 33, 38, 39, 40, 47, 48, 49, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 255, 256, 257, 300]).collect()
    } else {
        (1..=420).collect()
    };
    for l in lens {
        v.push(std::iter::repeat(top).take(l).collect());
        v.push(std::iter::repeat(mid).take(l).collect());
        let z: String = std::iter::repeat('0').take(l - 1).collect();
        v.push(format!("1{}", z));
        v.push(format!("1{}1", z));
        v.push(format!("{}{}{}", mid, z, 1));
    }
    // midpoints of neighbouring numbers and one unit around them
    for p in [64usize, 128, 192] {
        for t in [MSB, MAX, MIX] {
            for low in [0 as u64, 1, MAX] {
                let mut m = Integer::from(t);
                for _ in 1..p / 64 {
                    m = (m << 64) + low;
                }
                let half = (m.clone() << 1u32) + 1;
                let shs: &[u32] = if quick { &[0, 1, 40, 64, 200] } else { &[0, 1, 2, 3, 7, 40, 63, 64, 65, 100, 200, 300, 640, 1100] };
                for sh in shs.iter().copied() {
                    for d in [-1i32, 0, 1] {
                        v.push(digs(&(Integer::from(&half << sh) + d), rdx));
                    }
                }
            }
        }
    }
    // words of the library's own chunking
    for k in [15u32, 16, 17, 31, 32, 33, 47, 48, 49] {
        let t = Integer::from(Integer::u_pow_u(b, k));
        v.push(digs(&(t.clone() - 1), rdx));
        v.push(digs(&t, rdx));
        v.push(digs(&(t * 3 + 7), rdx));
    }
    v.sort();
    v.dedup();
    v
}

/// thresholds of overflow and underflow: exponents E such that rdx^E is near 2^x
fn exponent_near(rdx: Radix, x: i64) -> i64 {
    (x as f64 / (base(rdx) as f64).log2()).round() as i64
}

fn fmt_exp(e: i64, rdx: Radix) -> String {
    let m = Integer::from(e.unsigned_abs());
    format!("{}{}{}", if rdx == Radix::Hex { "_e" } else { "e" }, if e < 0 { "-" } else { "+" }, digs(&m, rdx))
}

pub fn c14(r: &Run) {
    *r.rule.lock().unwrap() = "All strings up to a length over an alphabet of the syntax, in four radixes; products of digit strings (runs, exact midpoints between neighbouring numbers and their neighbours, chunk boundaries), positions of the point, exponents (small, word-sized, around the overflow and underflow thresholds, beyond), precisions and rounding modes. Expected values come from an independent reader and exact integer arithmetic (MPFR intervals for powers of ten beyond 5^40000, which must determine the rounding).".into();
    r.assumptions.lock().unwrap().push("A string that is not entirely a number is NaN; which error it carries is not prescribed. Exponents with no digits count as zero.".into());
    let al: Vec<char> = "+-.059einfa_ x".chars().collect();
    let len = r.t(5, 6);
    for l in 0..=len {
        r.space(
            &format!("strings-{}", l),
            &[4, al.len().pow(l as u32)],
            |i| format!("radix {} string #{}", base(RDX[i[0]]), i[1]),
            |i, w| {
                let mut k = i[1];
                let s: String = (0..l)
                    .map(|_| {
                        let c = al[k % al.len()];
                        k /= al.len();
                        c
                    })
                    .collect();
                parse_case(&s, RDX[i[0]], &[64], &[RMS[i[1] % 6]], w);
            },
        );
    }
    let al2: Vec<char> = "01.e-7".chars().collect();
    let len = r.t(8, 10);
    for l in 6..=len {
        r.space(
            &format!("numbers-{}", l),
            &[4, al2.len().pow(l as u32)],
            |i| format!("radix {} string #{}", base(RDX[i[0]]), i[1]),
            |i, w| {
                let mut k = i[1];
                let s: String = (0..l)
                    .map(|_| {
                        let c = al2[k % al2.len()];
                        k /= al2.len();
                        c
                    })
                    .collect();
                parse_case(&s, RDX[i[0]], &[[64, 128, usize::MAX][i[1] % 3]], &[RMS[i[1] % 6]], w);
            },
        );
    }
    let odd = [
        "", "+", "-", ".", "e", "_e", "+.", "-e", "inf", "Inf", "-INF", "+inF", "infinity", "inf1", "in", "i", "nan", "-nan", "NaN", "nan1", "na", "1e", "1e+", "1_e", "1_", "1__e5",
        "1e5.5", "1.5.5", "1,5", " 1", "1 ", "\t1", "1\n", "１", "١", "1e１", "1é", "\0", "1\0", "0x10", "1e+-5", "--1", "+-1", "1-", "1e5e5", "1e5_e5", "0b1", "1.e5", ".5e-5", "0.e5", ".e5",
        "0e99999999999999999999", "0.0e99999999999999999999", "0.0e-99999999999999999999", "-0", "-0.0", "-.0", "-0e5", "-0.0e99999999999", "00000", "000.000", "0_e99999999999", "-0.0_e+fffffffffff", "0.0_e5", "-0_e-5",
        "1e99999999999999999999", "-1e99999999999999999999", "1e-99999999999999999999", "-1e-99999999999999999999", "1_e99999999999999999", "1_e-99999999999999999", "1e0000000000000000000000005", "1e-0000000000000000000000005",
        "0.00000000000000000000000000000000000000000000000000000000000000000000000000000001", "0.0000000001e+9", "0.1e-0",
    ];
    r.space(
        "odd",
        &[4, odd.len()],
        |i| format!("radix {} {:?}", base(RDX[i[0]]), odd[i[1]]),
        |i, w| {
            parse_case(odd[i[1]], RDX[i[0]], &[1, 64, 128, 320, usize::MAX], &RMS, w);
        },
    );
    // every character at each kind of place
    let places: [fn(char) -> String; 13] = [
        |c| format!("{c}"),
        |c| format!("{c}1"),
        |c| format!("1{c}"),
        |c| format!("1{c}5"),
        |c| format!("1.{c}"),
        |c| format!("-{c}"),
        |c| format!("1e{c}"),
        |c| format!("1e{c}5"),
        |c| format!("1_{c}5"),
        |c| format!("{c}nf"),
        |c| format!("i{c}f"),
        |c| format!("in{c}"),
        |c| format!("inf{c}nity"),
    ];
    let blocks = r.t(0x10000usize, 0x110000) / 64;
    r.space(
        "characters",
        &[4, places.len(), blocks],
        |i| format!("radix {} characters U+{:x}.. in {:?}", base(RDX[i[0]]), i[2] * 64, places[i[1]]('?')),
        |i, w| {
            for c in i[2] * 64..i[2] * 64 + 64 {
                if let Some(c) = char::from_u32(c as u32) {
                    parse_case(&places[i[1]](c), RDX[i[0]], &[64], &[RM::ToEven], w);
                }
            }
        },
    );
    for rdx in RDX {
        let ds = digit_strings(rdx, r.quick());
        // position of the point, exponent
        let exps: Vec<i64> = r.t(vec![0, 1, -1, 17, -20, 40, -75, 330, -340], vec![0, 1, -1, 2, -2, 15, 16, 17, -19, -20, 40, 64, -64, -75, 128, 330, -340, 1000, -1000, 5000, -5000]);
        let ps = [64, 128, 192, usize::MAX];
        r.space(
            &format!("values-{}", base(rdx)),
            &[ds.len(), exps.len(), 3],
            |i| format!("{} e{} point {}", ds[i[0]].chars().take(40).collect::<String>(), exps[i[1]], i[2]),
            |i, w| {
                let d = &ds[i[0]];
                let s = match i[2] {
                    0 => d.clone(),
                    1 => format!("-{}.{}", &d[..1], &d[1..]),
                    _ => format!(".{}", d),
                };
                let s = if exps[i[1]] == 0 { s } else { s + &fmt_exp(exps[i[1]], rdx) };
                parse_case(&s, rdx, &ps, &RMS, w);
            },
        );
        // leading and trailing zeros
        let lz: Vec<usize> = r.t(vec![1, 3, 63, 64, 65, 130], (1..140).collect());
        let few = ["1", "5", "7", "11", "101", "1234567012345670123456701234567"];
        r.space(
            &format!("zeros-{}", base(rdx)),
            &[lz.len(), few.len(), 5, exps.len()],
            |i| format!("zeros={} d={} kind={} e={}", lz[i[0]], few[i[1]], i[2], exps[i[3]]),
            |i, w| {
                let z: String = std::iter::repeat('0').take(lz[i[0]]).collect();
                let d: String = few[i[1]].chars().map(|c| if rdx == Radix::Bin && c != '0' { '1' } else { c }).collect();
                let s = match i[2] {
                    0 => format!("{}{}", z, d),
                    1 => format!("0.{}{}", z, d),
                    2 => format!("{}{}.{}", d, z, z),
                    3 => format!("{}.{}{}", z, z, d),
                    _ => format!("{}.{}{}{}", d, z, d, z),
                };
                let s = if exps[i[3]] == 0 { s } else { s + &fmt_exp(exps[i[3]], rdx) };
                parse_case(&s, rdx, &[64, 128, usize::MAX], &[RM::ToEven, RM::Up, RM::Down, RM::ToZero], w);
            },
        );
        // range limits
        let mut es: Vec<i64> = vec![];
        let near = r.t(4, 12);
        for p in [0i64, 64, 128, 192] {
            let c = exponent_near(rdx, EMIN - p);
            es.extend(c - near..=c + near);
        }
        for x in [EMAX, EMIN, EMAX - 64, EMAX + 64, EMAX / 2, EMIN / 2, 1 << 20, -(1 << 20)] {
            let c = exponent_near(rdx, x);
            es.extend(c - near..=c + near);
        }
        for k in [EMAX, EMIN] {
            es.extend(k - 70..=k - 60);
            es.extend(k - 4..=k + 4);
            es.extend(k + 60..=k + 70);
        }
        es.extend([i64::MAX >> 20, -(i64::MAX >> 20), 4294967295, 4294967296, -4294967296, 646456993, 646456994, -646456993, -646456994, 536870911, 536870912, -536870912]);
        es.sort();
        es.dedup();
        // exponents of every magnitude, also beyond the range
        let xs: Vec<i64> = crate::arith::all_exps().into_iter().chain([31, 32, 33, 40, 50, 62].iter().flat_map(|&k| [(1i64 << k) + 1, -(1i64 << k) - 1])).collect();
        r.space(
            &format!("exponents-{}", base(rdx)),
            &[xs.len(), 3],
            |i| format!("#{} e {}", i[1], xs[i[0]]),
            |i, w| {
                let d = ["1", "-11011.0110101", "0.0001111111111111111111111111111111111111111111111111111111111111111111111111111111111111111"][i[1]];
                parse_case(&format!("{}{}", d, fmt_exp(xs[i[0]], rdx)), rdx, &[64, 192], &[RM::ToEven, RM::Up, RM::ToZero], w);
            },
        );
        let mant = ["1", "3", "7", "0.1", "0.001", "-1.1", "12345670.1234567", "1777777777777777777777777777777777777777777777777777777777777777777777.7", "-0.00000000000000000000000000000000000000000000000000000000000000000001", "100000000000000000000000000000000000000000000000000000000000000000000000000001", "0.0"];
        r.space(
            &format!("limits-{}", base(rdx)),
            &[es.len(), mant.len()],
            |i| format!("{} e {}", mant[i[1]], es[i[0]]),
            |i, w| {
                let d: String = mant[i[1]].chars().map(|c| if rdx == Radix::Bin && c.is_ascii_digit() && c != '0' { '1' } else { c }).collect();
                let s = d + &fmt_exp(es[i[0]], rdx);
                parse_case(&s, rdx, &[64, 128], &RMS, w);
            },
        );
    }
    // long inputs
    let ls: Vec<usize> = r.t(vec![700, 1024, 1500, 3000], vec![512, 700, 1023, 1024, 1025, 1500, 3000, 4096, 10000, 20000]);
    r.space(
        "long",
        &[4, ls.len(), 4],
        |i| format!("radix {} {} digits kind {}", base(RDX[i[0]]), ls[i[1]], i[2]),
        |i, w| {
            let rdx = RDX[i[0]];
            let n = ls[i[1]];
            let s: String = match i[2] {
                0 => std::iter::repeat('1').take(n).collect(),
                1 => format!("1{}1", "0".repeat(n - 2)),
                2 => {
                    // an exact midpoint followed by zeros and a final 1
                    let h = (Integer::from(MIX) << 1u32) + 1;
                    let h = digs(&h, rdx);
                    format!("{}.{}1", h, "0".repeat(n - h.len() - 1))
                }
                _ => pattern(3, n / 2).iter().map(|x| char::from_digit((x % base(rdx) as u64) as u32, base(rdx)).unwrap()).collect(),
            };
            parse_case(&s, rdx, &[64, 128, 640, usize::MAX], &[RM::ToEven, RM::Up, RM::ToZero], w);
        },
    );
    // FromStr agrees with parse
    r.space(
        "fromstr",
        &[odd.len() + 60],
        |i| format!("#{}", i[0]),
        |i, w| {
            let s = if i[0] < odd.len() { odd[i[0]].to_string() } else { format!("{}.{}e{}", i[0], i[0] * 7919, i[0] as i64 * 13 - 700) };
            let t = read(&s, Radix::Dec);
            let b = s.parse::<BigFloat>();
            let c = match b {
                Ok(b) => check_parse(&b, &t, Radix::Dec, usize::MAX, RM::ToEven),
                Err(e) => match t {
                    Tx::Nan => Ok(false),
                    _ => Err(format!("got error {:?}", e)),
                },
            };
            w.sub(c, || format!("from_str({:?})", s));
        },
    );
}

// --- C15, C16 ---

/// the number of decimal digits the library promises for p bits
pub fn dec_digits(p: usize) -> usize {
    (p as u64 * 301029996 / 1000000000) as usize + 1
}

/// Is the decimal d*10^e the value x rounded to n digits with mode rm?
pub fn check_dec(x: &Dy, neg: bool, d: &Integer, e: i64, n: usize, rm: RM) -> Result<bool, String> {
    if x.is_zero() {
        return if *d == 0 && neg == x.neg { Ok(false) } else { Err("nonzero text of zero".into()) };
    }
    if neg != x.neg {
        return Err("wrong sign".into());
    }
    if *d == 0 {
        return Err("zero text of a nonzero number".into());
    }
    // the exponent of the unit of the n-th digit of |x|: find k with 10^(k) <= |x| < 10^(k+1)
    let l = digs(d, Radix::Dec).len() as i64;
    let k0 = l - 1 + e; // exponent of the text's leading digit; x has k0 or k0-1 (carry)
    for k in [k0, k0 - 1, k0 + 1] {
        if cmp10(x, &Integer::from(1), k) != std::cmp::Ordering::Less && cmp10(x, &Integer::from(1), k + 1) == std::cmp::Ordering::Less {
            let u = k - n as i64 + 1; // value of the unit: 10^u
            // text as a multiple of the unit
            let t = if e >= u {
                d * Integer::from(Integer::u_pow_u(10, (e - u) as u32))
            } else {
                let (q, r) = d.clone().div_rem(Integer::from(Integer::u_pow_u(10, (u - e) as u32)));
                if r != 0 {
                    return Err(format!("more than {} digits", n));
                }
                q
            };
            use std::cmp::Ordering::*;
            let c = cmp10(x, &t, u);
            if c == Equal {
                return Ok(false);
            }
            let ok = match rm {
                RM::None => cmp10(x, &(t.clone() + 1), u) != Greater && cmp10(x, &(t.clone() - 1), u) != Less,
                RM::ToZero => c == Greater && cmp10(x, &(t.clone() + 1), u) == Less,
                RM::FromZero => c == Less && cmp10(x, &(t.clone() - 1), u) == Greater,
                RM::Up | RM::Down => {
                    if (rm == RM::Up) != neg {
                        c == Less && cmp10(x, &(t.clone() - 1), u) == Greater
                    } else {
                        c == Greater && cmp10(x, &(t.clone() + 1), u) == Less
                    }
                }
                RM::ToEven | RM::ToOdd => {
                    // 2t-1 <= 2x <= 2t+1 with ties by parity
                    let x2 = Dy::new(false, x.m.clone(), x.e + 1);
                    let lo = cmp10(&x2, &(Integer::from(&t * 2) - 1), u);
                    let hi = cmp10(&x2, &(Integer::from(&t * 2) + 1), u);
                    let tie_ok = t.is_even() == (rm == RM::ToEven);
                    (lo == Greater || (lo == Equal && tie_ok)) && (hi == Less || (hi == Equal && tie_ok))
                }
            };
            return if ok { Ok(true) } else { Err(format!("not the value rounded to {} digits by {:?}", n, rm)) };
        }
    }
    Err(format!("wrong magnitude: text {}e{}", d, e))
}

/// compare |x| with t * 10^u
fn cmp10(x: &Dy, t: &Integer, u: i64) -> std::cmp::Ordering {
    let (f, exact) = pow5(u.unsigned_abs(), x.m.significant_bits() as usize + t.significant_bits() as usize + 256);
    let (mut a, mut b) = (Dy::new(false, x.m.clone(), x.e), Dy::new(false, t.clone(), u));
    if u >= 0 {
        b = b.mul(&f);
    } else {
        a = a.mul(&f);
    }
    if !exact {
        // the power is a truncation: look whether the comparison is clear
        let side = if u >= 0 { &b } else { &a };
        let sb = side.m.significant_bits() as i64;
        let d = a.add(&b.neg());
        assert!(!d.is_zero() && d.top() > side.top() - sb + 80, "oracle: comparison with a power of ten is not determined");
    }
    a.abs_cmp(&b)
}

fn text_of(t: &Tx) -> Option<(bool, &Integer, i64)> {
    match t {
        Tx::Num { neg, d, e, .. } => Some((*neg, d, *e)),
        _ => None,
    }
}

/// number -> text -> number
pub fn format_case(x: &BigFloat, rdx: Radix, rms: &[RM], w: &mut W) {
    let dx = dy(x);
    let p = x.mantissa_max_bit_len().unwrap();
    for (ri, &rm) in rms.iter().enumerate() {
        w.sub[2] = ri;
        let s = match x.format(rdx, rm, &mut w.cc) {
            Ok(s) => s,
            Err(e) => {
                w.fail(format!("format({}, {:?}, {:?}) => error {:?}", show(x), rdx, rm, e));
                continue;
            }
        };
        let t = read(&s, rdx);
        let c = match text_of(&t) {
            None => {
                // rounding up the largest numbers leaves the range of the type
                if (s == "Inf" || s == "-Inf") && rdx == Radix::Dec && false {
                    Ok(false)
                } else {
                    Err("is not a number".to_string())
                }
            }
            Some((neg, d, e)) => {
                if rdx == Radix::Dec {
                    check_dec(&dx, neg, d, e, dec_digits(p), rm)
                } else {
                    let y = Dy::new(neg, d.clone(), e * log2(rdx) as i64);
                    if (dx.is_zero() && y.is_zero() && dx.neg == neg) || (!dx.is_zero() && !y.is_zero() && dx.cmp(&y) == std::cmp::Ordering::Equal) {
                        Ok(!dx.is_zero())
                    } else {
                        Err("the text denotes another value".into())
                    }
                }
            }
        };
        let ok = c.is_ok();
        w.sub(c, || format!("format({}, {:?}, {:?}) = {:?}", show(x), rdx, rm, s));
        if !ok {
            continue;
        }
        let b = BigFloat::parse(&s, rdx, p, RM::ToEven, &mut w.cc);
        let c = if rdx == Radix::Dec {
            match text_of(&t) {
                Some((neg, d, e)) => check_text(&b, neg, d, rdx, e, p, RM::ToEven),
                None => Ok(false),
            }
        } else {
            let mut y = x.clone();
            y.set_inexact(false);
            if ident(&y, &b) {
                Ok(true)
            } else {
                Err(format!("got {}", show(&b)))
            }
        };
        w.sub(c, || format!("parse(format({}, {:?}, {:?}) = {:?})", show(x), rdx, rm, s));
        // digits
        let (sg, ds, e) = match x.convert_to_radix(rdx, rm, &mut w.cc) {
            Ok(v) => v,
            Err(er) => {
                w.fail(format!("convert_to_radix({}, {:?}, {:?}) => error {:?}", show(x), rdx, rm, er));
                continue;
            }
        };
        let c = if ds.iter().any(|v| *v as u32 >= base(rdx)) {
            Err(format!("digit out of range in {:?}", ds))
        } else if let Some((neg, d, te)) = text_of(&t) {
            let dd = from_digits(&ds, rdx);
            let de = e as i64 - ds.len() as i64;
            let eq = if dd == 0 { *d == 0 } else { same_num(&dd, de, d, te, base(rdx)) };
            if eq && (sg == Sign::Neg) == neg {
                Ok(true)
            } else {
                Err(format!("{:?} e {} differs from the text {:?}", ds, e, s))
            }
        } else {
            Ok(false)
        };
        w.sub(c, || format!("convert_to_radix({}, {:?}, {:?})", show(x), rdx, rm));
        let b2 = BigFloat::convert_from_radix(sg, &ds, e, rdx, p, RM::ToEven, &mut w.cc);
        let c = if ident(&b, &b2) { Ok(true) } else { Err(format!("got {} but the text gives {}", show(&b2), show(&b))) };
        w.sub(c, || format!("convert_from_radix({:?}, {:?}, {}, {:?}, {})", sg, ds, e, rdx, p));
    }
    let d = match rdx {
        Radix::Bin => format!("{:b}", x),
        Radix::Oct => format!("{:o}", x),
        Radix::Dec => format!("{}", x),
        Radix::Hex => format!("{:X}", x),
    };
    let f = x.format(rdx, RM::ToEven, &mut w.cc).unwrap_or_else(|e| format!("{:?}", e));
    w.sub(if d == f { Ok(true) } else { Err(format!("display {:?} format {:?}", d, f)) }, || format!("display {:?} of {}", rdx, show(x)));
}

/// a*b^ea == c*b^ec
fn same_num(a: &Integer, ea: i64, c: &Integer, ec: i64, b: u32) -> bool {
    let e = ea.min(ec);
    if (ea - e) > 100000 || (ec - e) > 100000 {
        return false;
    }
    let x = a * Integer::from(Integer::u_pow_u(b, (ea - e) as u32));
    let y = c * Integer::from(Integer::u_pow_u(b, (ec - e) as u32));
    x == y
}

pub fn c15(r: &Run) {
    *r.rule.lock().unwrap() = "Mantissas of boundary words (1 to 4 words and long patterns), exponents around zero, word boundaries, powers of the radix and both ends of the range, subnormals, both signs, all radixes and modes: the text is read by an independent reader; in radix 2, 8, 16 it must denote the number exactly and parse back identically, in radix 10 it must be the number correctly rounded to floor(p*log10 2)+1 digits and parse back to the correctly rounded value of the text. Digits from convert_to_radix must agree with the text, and the display traits with format.".into();
    let ms = nums(&mants(r.t(10, 14), r.t((4, 5), (8, 10)), r.t((2, 2, 2), (4, 5, 5)), r.t((1, 1, 1, 1), (2, 3, 3, 3))), 0);
    let mut es: Vec<i64> = r.t(
        (-70..=70).step_by(3).chain([127, 128, 129, 192, 193, -127, -128, -129, 1000, -1000, 3321, -3321]).collect::<Vec<_>>(),
        (-300..=300).chain([1000, -1000, 3321, -3321, 10000, -10000, 33219, -33219]).collect(),
    );
    es.sort();
    es.dedup();
    for rdx in RDX {
        let rms: &[RM] = if rdx == Radix::Dec { &RMS } else { &RMS[..2] };
        r.space(
            &format!("normal-{}", base(rdx)),
            &[ms.len(), es.len(), 2],
            |i| format!("{} e={} neg={}", show(&ms[i[0]]), es[i[1]], i[2]),
            |i, w| {
                let mut x = with_exp(&ms[i[0]], es[i[1]] as Exponent);
                if i[2] == 1 {
                    x.inv_sign();
                }
                format_case(&x, rdx, rms, w);
            },
        );
        // ends of the range
        let mut ends: Vec<i64> = vec![];
        for o in 0..r.t(5i64, 20) {
            ends.extend([EMAX - o, EMIN + o, EMAX - 62 - o, EMIN + 62 + o]);
        }
        ends.extend([EMAX / 2, EMIN / 2, 536870911, 536870912, 1783446566, 1783446567, -1783446566, -1783446567, 1 << 30, -(1 << 30)]);
        let few: Vec<BigFloat> = ms.iter().filter(|x| x.mantissa_digits().unwrap().len() <= 2).take(r.t(6, 40)).cloned().chain([mk(&[1, 0, MSB], false, 0), mk(&[MAX; 3], false, 0), mk(&pattern(3, 10), false, 0)]).collect();
        r.space(
            &format!("range-{}", base(rdx)),
            &[few.len(), ends.len(), 2],
            |i| format!("{} e={} neg={}", show(&few[i[0]]), ends[i[1]], i[2]),
            |i, w| {
                let mut x = with_exp(&few[i[0]], ends[i[1]] as Exponent);
                if i[2] == 1 {
                    x.inv_sign();
                }
                format_case(&x, rdx, rms, w);
            },
        );
        // exponents of every magnitude
        let xn = crate::arith::all_exps_nums(&[vec![MAX], vec![5, MIX | MSB]]);
        r.space(
            &format!("exponents-{}", base(rdx)),
            &[xn.len()],
            |i| show(&xn[i[0]]),
            |i, w| {
                let mut x = xn[i[0]].clone();
                if i[0] % 2 == 1 {
                    x.inv_sign();
                }
                format_case(&x, rdx, &rms[..rms.len().min(r.t(2, 7))], w);
            },
        );
        // subnormals
        let nsub = r.t(192usize, 320);
        r.space(
            &format!("subnormal-{}", base(rdx)),
            &[nsub - 1, 4, 3],
            |i| format!("bits={} kind={} words={}", i[0] + 1, i[1], i[2] + 1),
            |i, w| {
                let n = i[2] + 1;
                let bits = i[0] + 1;
                if bits >= n * WB {
                    return;
                }
                let m = match i[1] {
                    0 => Integer::from(1) << (bits - 1) as u32,
                    1 => (Integer::from(1) << bits as u32) - 1,
                    2 => (Integer::from(1) << (bits - 1) as u32) | Integer::from(1),
                    _ => from_words(&pattern(3, 5)) >> (320 - bits) as u32,
                };
                let x = mk(&to_words(&m, n), i[0] % 2 == 1, EXPONENT_MIN);
                let rms: &[RM] = if rdx == Radix::Dec { &RMS6[..] } else { &RMS[..2] };
                format_case(&x, rdx, rms, w);
            },
        );
        // longer numbers
        let ns: Vec<usize> = r.t(vec![5, 8, 16, 17, 33, 64], vec![5, 6, 7, 8, 9, 12, 16, 17, 25, 33, 48, 64, 65, 100, 128, 129, 200, 256, 300]);
        let les = [0i64, 1, 64, -64, 320, -1000, 4096];
        r.space(
            &format!("long-{}", base(rdx)),
            &[ns.len(), NKIND, les.len()],
            |i| format!("{} words kind {} e={}", ns[i[0]], i[1], les[i[2]]),
            |i, w| {
                let x = mk(&pattern(i[1], ns[i[0]]), i[1] % 2 == 1, les[i[2]] as Exponent);
                let rms: &[RM] = if rdx == Radix::Dec { &[RM::ToEven, RM::Up, RM::ToZero] } else { &RMS[..1] };
                format_case(&x, rdx, rms, w);
            },
        );
        // powers of the radix and neighbours: exact short texts, carries
        let pw: Vec<i64> = (0..r.t(60, 200)).collect();
        r.space(
            &format!("powers-{}", base(rdx)),
            &[pw.len(), 5, 3],
            |i| format!("{}^{} + {} at {} words", base(rdx), pw[i[0]], i[1] as i64 - 2, i[2] + 1),
            |i, w| {
                let v = Integer::from(Integer::u_pow_u(base(rdx), pw[i[0]] as u32)) + (i[1] as i64 - 2);
                let n = (i[2] + 1).max((v.significant_bits() as usize + 63) / 64);
                let x = encode(&Dy::new(false, v.abs(), 0), n * WB);
                format_case(&x, rdx, rms, w);
            },
        );
    }
    // not finite, zero
    r.space(
        "special",
        &[4],
        |i| format!("radix {}", base(RDX[i[0]])),
        |i, w| {
            let rdx = RDX[i[0]];
            for n in [1, 2, 5] {
                for neg in [false, true] {
                    let mut z = BigFloat::new(n * WB);
                    z.set_sign(if neg { Sign::Neg } else { Sign::Pos });
                    format_case(&z, rdx, &RMS, w);
                }
            }
            let sp = [(astro_float_num::INF_POS, "Inf"), (astro_float_num::INF_NEG, "-Inf"), (astro_float_num::NAN, "NaN"), (BigFloat::nan(Some(astro_float_num::Error::DivisionByZero)), "NaN")];
            for (b, s) in sp {
                for rm in RMS {
                    let t = b.format(rdx, rm, &mut w.cc);
                    let ok = t.as_ref().map(|x| x == s).unwrap_or(false);
                    w.sub(if ok { Ok(true) } else { Err(format!("got {:?}", t)) }, || format!("format({}, {:?})", s, rdx));
                    let e = b.convert_to_radix(rdx, rm, &mut w.cc);
                    w.sub(if matches!(e, Err(astro_float_num::Error::InvalidArgument)) { Ok(true) } else { Err(format!("got {:?}", e)) }, || format!("convert_to_radix({}, {:?})", s, rdx));
                }
                let d = [format!("{:b}", b), format!("{:o}", b), format!("{}", b), format!("{:X}", b)];
                w.sub(if d.iter().all(|x| x == s) { Ok(true) } else { Err(format!("got {:?}", d)) }, || format!("display {}", s));
            }
        },
    );
}

pub fn digits_case(neg: bool, ds: &[u8], e: Exponent, rdx: Radix, ps: &[usize], rms: &[RM], w: &mut W) {
    let bad = ds.iter().any(|d| *d as u32 >= base(rdx));
    let d = if bad { Integer::new() } else { from_digits(ds, rdx) };
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            if p == usize::MAX && rdx != Radix::Dec && !bad && d != 0 {
                // the automatic precision keeps all digits of a subnormal number: up to 2^33 bits
                let top = (e as i64) * (base(rdx) as f64).log2() as i64;
                if top < EMIN - 4000 {
                    continue;
                }
            }
            let b = BigFloat::convert_from_radix(if neg { Sign::Neg } else { Sign::Pos }, ds, e, rdx, p, rm, &mut w.cc);
            let c = if bad {
                // both an invalid digit and an exponent out of range: either may be reported
                if is_err(&b, &["invalid"]) || (b.is_inf() && e > EXPONENT_MAX / 5) {
                    Ok(true)
                } else {
                    Err(format!("got {} for invalid digits", show(&b)))
                }
            } else {
                let t = Tx::Num { neg, d: d.clone(), e: e as i64 - ds.len() as i64, first: 0, len: ds.len() };
                check_parse(&b, &t, rdx, p, rm)
            };
            w.sub(c, || format!("convert_from_radix({}, {:?}, {}, {:?}, {}, {:?})", neg, ds, e, rdx, if p == usize::MAX { -1 } else { p as i64 }, rm));
        }
    }
}

pub fn c16(r: &Run) {
    *r.rule.lock().unwrap() = "All digit sequences up to a length over boundary digits of each radix and one invalid digit; long sequences of runs with leading and trailing zeros; all exponents from a list with both ends of the range; precisions and modes. The expected value is exact integer arithmetic.".into();
    for rdx in RDX {
        let b = base(rdx) as u8;
        let mut al = vec![0u8, 1, b / 2, b - 1, b];
        al.sort();
        al.dedup();
        let al = al;
        let len = r.t(5usize, 7);
        let es: [Exponent; 12] = [0, 1, -1, 3, -7, 100, -100, 20, EXPONENT_MAX, EXPONENT_MIN, EXPONENT_MAX - 1, EXPONENT_MIN + 1];
        for l in 0..=len {
            r.space(
                &format!("digits-{}-{}", b, l),
                &[al.len().pow(l as u32), es.len()],
                |i| format!("#{} e={}", i[0], es[i[1]]),
                |i, w| {
                    let mut k = i[0];
                    let ds: Vec<u8> = (0..l)
                        .map(|_| {
                            let c = al[k % al.len()];
                            k /= al.len();
                            c
                        })
                        .collect();
                    digits_case(i[0] % 3 == 0, &ds, es[i[1]], rdx, &[[64, 128, usize::MAX][i[0] % 3]], &RMS[..], w);
                },
            );
        }
        // position of one invalid digit, value of the digit
        r.space(
            &format!("invalid-{}", b),
            &[70, 6, 2],
            |i| format!("position {} kind {} lead {}", i[0], i[1], i[2]),
            |i, w| {
                let mut ds = vec![if i[2] == 0 { 0u8 } else { 1 }; 70];
                ds[i[0]] = [b, b + 1, 16, 100, 128, 255][i[1]].max(b);
                digits_case(false, &ds, 5, rdx, &[64, 128, usize::MAX], &[RM::ToEven], w);
            },
        );
        // exponents of every magnitude
        let xs = crate::arith::all_exps();
        r.space(
            &format!("exponents-{}", b),
            &[xs.len(), 3],
            |i| format!("e={} kind={}", xs[i[0]], i[1]),
            |i, w| {
                let ds: Vec<u8> = match i[1] {
                    0 => vec![1],
                    1 => vec![b - 1; 30],
                    _ => (0..50).map(|j| ((j * 7 + j / 3 + 1) % b as usize) as u8).collect(),
                };
                digits_case(i[0] % 2 == 1, &ds, xs[i[0]] as Exponent, rdx, &[64, 192], &[RM::ToEven, RM::Up, RM::ToZero], w);
            },
        );
        let lz: Vec<usize> = r.t(vec![0, 1, 2, 63, 64, 65, 128], (0..131).collect());
        let body: Vec<usize> = r.t(vec![1, 2, 15, 16, 17, 21, 22, 31, 32, 33, 43, 63, 64, 65, 66, 127, 128, 129], (1..200).collect());
        let ees: Vec<Exponent> = vec![0, 1, -1, 64, -64, 65, EXPONENT_MIN, EXPONENT_MIN + 1, EXPONENT_MIN + 64, EXPONENT_MAX, EXPONENT_MAX - 64, exponent_near(rdx, EMIN) as Exponent, (exponent_near(rdx, EMIN) as Exponent).saturating_sub(20), exponent_near(rdx, EMAX) as Exponent];
        r.space(
            &format!("long-{}", b),
            &[lz.len(), body.len(), 4, ees.len()],
            |i| format!("zeros={} body={} kind={} e={}", lz[i[0]], body[i[1]], i[2], ees[i[3]]),
            |i, w| {
                let mut ds = vec![0u8; lz[i[0]]];
                let n = body[i[1]];
                for j in 0..n {
                    ds.push(match i[2] {
                        0 => b - 1,
                        1 => (j == 0 || j == n - 1) as u8,
                        2 => {
                            if j == 0 {
                                b / 2
                            } else {
                                0
                            }
                        }
                        _ => ((j * 7 + j / 3 + 1) % b as usize) as u8,
                    });
                }
                let rms: &[RM] = r.t(&[RM::ToEven, RM::Up, RM::ToZero][..], &RMS[..]);
                digits_case(i[2] % 2 == 1, &ds, ees[i[3]], rdx, &[64, 128, usize::MAX], rms, w);
            },
        );
    }
    r.space(
        "precision",
        &[4, 6],
        |i| format!("radix {} p#{}", base(RDX[i[0]]), i[1]),
        |i, w| {
            let p = [0, crate::prim::LIMIT, crate::prim::LIMIT + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX - 63][i[1]];
            for ds in [&[][..], &[0], &[1, 0, 1], &[0, 0, 1]] {
                let b = BigFloat::convert_from_radix(Sign::Pos, ds, 1, RDX[i[0]], p, RM::ToEven, &mut w.cc);
                let ok = if p == 0 { b.is_zero() || b.is_nan() } else { is_err(&b, &["invalid", "mem"]) };
                w.sub(if ok { Ok(true) } else { Err(format!("got {}", show(&b))) }, || format!("convert_from_radix({:?}, {:?}, p={})", ds, RDX[i[0]], p));
                let b = BigFloat::parse("1.1", RDX[i[0]], p, RM::ToEven, &mut w.cc);
                let ok = if p == 0 { b.is_zero() || b.is_nan() } else { is_err(&b, &["invalid", "mem"]) };
                w.sub(if ok { Ok(true) } else { Err(format!("got {}", show(&b))) }, || format!("parse(1.1, {:?}, p={})", RDX[i[0]], p));
            }
        },
    );
    let _: Option<&Consts> = None;
}
