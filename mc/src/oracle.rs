//! Independent reference: exact dyadic values, one rounding function, comparison with library numbers.

use astro_float_num::{BigFloat, Error, Exponent, RoundingMode as RM, Sign, Word, EXPONENT_MAX, EXPONENT_MIN};
use rug::integer::Order;
use rug::Integer;

pub const WB: usize = astro_float_num::WORD_BIT_SIZE;
pub const EMIN: i64 = EXPONENT_MIN as i64;
pub const EMAX: i64 = EXPONENT_MAX as i64;

pub const RMS: [RM; 7] =
    [RM::ToEven, RM::ToOdd, RM::Up, RM::Down, RM::ToZero, RM::FromZero, RM::None];
pub const RMS6: [RM; 6] = [RM::ToEven, RM::ToOdd, RM::Up, RM::Down, RM::ToZero, RM::FromZero];

pub fn mpfr_init() {
    unsafe {
        gmp_mpfr_sys::mpfr::set_emin(gmp_mpfr_sys::mpfr::get_emin_min());
        gmp_mpfr_sys::mpfr::set_emax(gmp_mpfr_sys::mpfr::get_emax_max());
    }
}

pub fn rp(p: usize) -> usize {
    (p + WB - 1) / WB * WB
}

/// (-1)^neg * m * 2^e
#[derive(Clone, Debug)]
pub struct Dy {
    pub neg: bool,
    pub m: Integer,
    pub e: i64,
}

impl Dy {
    pub fn new(neg: bool, m: Integer, e: i64) -> Self {
        Dy { neg, m, e }
    }
    pub fn int(i: i64) -> Self {
        Dy { neg: i < 0, m: Integer::from(i).abs(), e: 0 }
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    pub fn signed(&self) -> Integer {
        if self.neg {
            Integer::from(-&self.m)
        } else {
            self.m.clone()
        }
    }
    /// exponent in 0.1xxx form
    pub fn top(&self) -> i64 {
        self.m.significant_bits() as i64 + self.e
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        Dy { neg: self.neg != o.neg, m: Integer::from(&self.m * &o.m), e: self.e + o.e }
    }
    pub fn add(&self, o: &Dy) -> Dy {
        let e = self.e.min(o.e);
        let a = self.signed() << (self.e - e) as u32;
        let b = o.signed() << (o.e - e) as u32;
        let s = a + b;
        Dy { neg: s < 0, m: s.abs(), e }
    }
    pub fn neg(&self) -> Dy {
        Dy { neg: !self.neg, m: self.m.clone(), e: self.e }
    }
    pub fn cmp(&self, o: &Dy) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        match (self.is_zero(), o.is_zero()) {
            (true, true) => return Equal,
            (true, false) => return if o.neg { Greater } else { Less },
            (false, true) => return if self.neg { Less } else { Greater },
            _ => {}
        }
        if self.neg != o.neg {
            return if self.neg { Less } else { Greater };
        }
        let c = self.abs_cmp(o);
        if self.neg {
            c.reverse()
        } else {
            c
        }
    }
    pub fn abs_cmp(&self, o: &Dy) -> std::cmp::Ordering {
        if self.is_zero() || o.is_zero() {
            return self.m.cmp(&o.m);
        }
        let c = self.top().cmp(&o.top());
        if c != std::cmp::Ordering::Equal {
            return c;
        }
        let e = self.e.min(o.e);
        let a = Integer::from(&self.m << (self.e - e) as u32);
        let b = Integer::from(&o.m << (o.e - e) as u32);
        a.cmp(&b)
    }
    pub fn show(&self) -> String {
        format!("{}{:#x}*2^{}", if self.neg { "-" } else { "" }, self.m, self.e)
    }
}

/// Expected outcome of an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// words at the requested precision, exponent; zero is all-zero words with e == 0
    Num { neg: bool, words: Vec<Word>, e: i64, inexact: bool },
    Inf { neg: bool },
}

pub fn to_words(m: &Integer, n: usize) -> Vec<Word> {
    let mut v: Vec<Word> = m.to_digits(Order::Lsf);
    assert!(v.len() <= n, "oracle: mantissa does not fit");
    v.resize(n, 0);
    v
}

pub fn from_words(w: &[Word]) -> Integer {
    Integer::from_digits(w, Order::Lsf)
}

/// Rounds the positive magnitude m*2^e2 (plus something in (0,1)*2^e2 if sticky) to a multiple of 2^lsb.
/// Returns (rounded integer multiple, inexact).
pub fn round_at(neg: bool, m: &Integer, e2: i64, sticky: bool, lsb: i64, rm: RM) -> (Integer, bool) {
    if e2 >= lsb {
        assert!(!sticky || e2 > lsb || matches!(rm, RM::ToZero | RM::FromZero | RM::Up | RM::Down | RM::None), "oracle: not enough bits");
        let q = Integer::from(m << (e2 - lsb) as u32);
        if !sticky {
            return (q, false);
        }
        assert!(e2 == lsb, "oracle: not enough bits");
        let up = match rm {
            RM::FromZero => true,
            RM::Up => !neg,
            RM::Down => neg,
            _ => false,
        };
        return (if up { q + 1 } else { q }, true);
    }
    let sh = lsb - e2;
    let nb = m.significant_bits() as i64;
    // q = floor, rem
    let (q, half, rest) = if sh > nb {
        (Integer::new(), false, *m != 0 || sticky)
    } else {
        let q = Integer::from(m >> sh as u32);
        let half = m.get_bit((sh - 1) as u32);
        let rest = sticky || m.find_one(0).map_or(false, |i| (i as i64) < sh - 1);
        (q, half, rest)
    };
    let inexact = half || rest;
    let up = match rm {
        RM::None | RM::ToZero => false,
        RM::FromZero => inexact,
        RM::Up => inexact && !neg,
        RM::Down => inexact && neg,
        RM::ToEven => half && (rest || q.is_odd()),
        RM::ToOdd => half && (rest || q.is_even()),
    };
    (if up { q + 1 } else { q }, inexact)
}

/// Correct rounding of the exact value to precision p (bits, multiple of the word size) and the exponent range.
pub fn round_ref(neg: bool, m: &Integer, e2: i64, sticky: bool, p: usize, rm: RM) -> Val {
    let n = p / WB;
    if *m == 0 && !sticky {
        return Val::Num { neg, words: vec![0; n], e: 0, inexact: false };
    }
    let top = if *m == 0 { e2 } else { m.significant_bits() as i64 + e2 };
    let lsb = (top - p as i64).max(EMIN - p as i64);
    let (q, inexact) = round_at(neg, m, e2, sticky, lsb, rm);
    if q == 0 {
        return Val::Num { neg, words: vec![0; n], e: 0, inexact };
    }
    let bits = q.significant_bits() as i64;
    let e = bits + lsb;
    if e > EMAX {
        return Val::Inf { neg };
    }
    if e >= EMIN {
        // normal; q may have p+1 bits (a power of two)
        let q = if bits > p as i64 {
            q >> (bits - p as i64) as u32
        } else {
            q << (p as i64 - bits) as u32
        };
        Val::Num { neg, words: to_words(&q, n), e, inexact }
    } else {
        Val::Num { neg, words: to_words(&q, n), e: EMIN, inexact }
    }
}

/// Faithful neighbours for RoundingMode::None
pub fn neighbours(neg: bool, m: &Integer, e2: i64, sticky: bool, p: usize) -> (Val, Val) {
    (round_ref(neg, m, e2, sticky, p, RM::ToZero), round_ref(neg, m, e2, sticky, p, RM::FromZero))
}

pub fn decode(b: &BigFloat) -> Option<Dy> {
    let (w, _n, s, e, _i) = b.as_raw_parts()?;
    let m = from_words(w);
    Some(Dy { neg: s == Sign::Neg, m, e: e as i64 - (w.len() * WB) as i64 })
}

/// Library number from a dyadic that fits exactly in p bits (normal or subnormal).
pub fn encode(d: &Dy, p: usize) -> BigFloat {
    match round_ref(d.neg, &d.m, d.e, false, p, RM::ToZero) {
        Val::Num { neg, words, e, inexact } => {
            assert!(!inexact, "encode: does not fit");
            mk(&words, neg, e as Exponent)
        }
        _ => panic!("encode: overflow"),
    }
}

/// Library number from raw words; the bit length is computed here.
pub fn mk(words: &[Word], neg: bool, e: Exponent) -> BigFloat {
    mk_i(words, neg, e, false)
}

pub fn mk_i(words: &[Word], neg: bool, e: Exponent, inexact: bool) -> BigFloat {
    let s = if neg { Sign::Neg } else { Sign::Pos };
    let n = from_words(words).significant_bits() as usize;
    if n == 0 {
        let mut z = BigFloat::new(words.len() * WB);
        z.set_sign(s);
        z.set_inexact(inexact);
        return z;
    }
    let r = BigFloat::from_raw_parts(words, n, s, e, inexact);
    assert!(!r.is_nan(), "mk: from_raw_parts rejected {:x?} e={} n={}", words, e, n);
    r
}

pub fn show(b: &BigFloat) -> String {
    match b.as_raw_parts() {
        None => {
            if b.is_nan() {
                format!("NaN({:?})", b.err())
            } else if b.is_inf_pos() {
                "Inf".into()
            } else {
                "-Inf".into()
            }
        }
        Some((w, n, s, e, i)) => {
            let ws: Vec<String> = if w.len() <= 12 {
                w.iter().rev().map(|x| format!("{:x}", x)).collect()
            } else {
                let mut v: Vec<String> = w.iter().rev().take(4).map(|x| format!("{:x}", x)).collect();
                v.push(format!("..{} words..", w.len() - 8));
                v.extend(w.iter().rev().skip(w.len() - 4).map(|x| format!("{:x}", x)));
                v
            };
            format!(
                "{}[{}]e{}{}{}",
                if s == Sign::Neg { "-" } else { "+" },
                ws.join(","),
                e,
                if i { "~" } else { "" },
                if n != from_words(w).significant_bits() as usize { format!("(n={})", n) } else { String::new() }
            )
        }
    }
}

pub fn showv(v: &Val) -> String {
    match v {
        Val::Inf { neg } => (if *neg { "-Inf" } else { "Inf" }).into(),
        Val::Num { neg, words, e, inexact } => {
            let ws: Vec<String> = if words.len() <= 12 {
                words.iter().rev().map(|x| format!("{:x}", x)).collect()
            } else {
                let mut v: Vec<String> = words.iter().rev().take(4).map(|x| format!("{:x}", x)).collect();
                v.push("...".into());
                v.extend(words.iter().rev().skip(words.len() - 4).map(|x| format!("{:x}", x)));
                v
            };
            format!("{}[{}]e{}{}", if *neg { "-" } else { "+" }, ws.join(","), e, if *inexact { "~" } else { "" })
        }
    }
}

#[derive(Clone, Copy)]
pub struct Cmp {
    pub flag: bool,
    pub zero_sign: bool,
}
pub const STRICT: Cmp = Cmp { flag: true, zero_sign: false };
pub const VALUE: Cmp = Cmp { flag: false, zero_sign: false };

/// Does the library result equal the expected outcome (value, precision, canonical form, flag)?
pub fn same(r: &BigFloat, x: &Val, c: Cmp) -> bool {
    match (r.as_raw_parts(), x) {
        (None, Val::Inf { neg }) => {
            if *neg {
                r.is_inf_neg()
            } else {
                r.is_inf_pos()
            }
        }
        (Some((w, n, s, e, i)), Val::Num { neg, words, e: xe, inexact }) => {
            if w != &words[..] {
                return false;
            }
            let zero = words.iter().all(|v| *v == 0);
            if zero {
                if n != 0 || !r.is_zero() || e != 0 {
                    return false;
                }
                if c.zero_sign && (s == Sign::Neg) != *neg {
                    return false;
                }
            } else {
                if e as i64 != *xe || (s == Sign::Neg) != *neg {
                    return false;
                }
                let k = words.len();
                let top = words[k - 1];
                if top >> (WB - 1) != 0 {
                    if n != k * WB {
                        return false;
                    }
                } else if n == 0 || n != bitlen(words) {
                    return false;
                }
            }
            if c.flag && i != *inexact {
                return false;
            }
            true
        }
        _ => false,
    }
}

pub fn bitlen(w: &[Word]) -> usize {
    for i in (0..w.len()).rev() {
        if w[i] != 0 {
            return i * WB + (WB - w[i].leading_zeros() as usize);
        }
    }
    0
}

/// Compare with correct rounding of the exact value (m, e2, sticky); handles RM::None as "faithful".
/// `argflag`: an operand was inexact.
pub fn check(r: &BigFloat, neg: bool, m: &Integer, e2: i64, sticky: bool, p: usize, rm: RM, argflag: bool, c: Cmp) -> Result<bool, String> {
    if rm == RM::None {
        let (mut a, mut b) = neighbours(neg, m, e2, sticky, p);
        orflag(&mut a, argflag);
        orflag(&mut b, argflag);
        let nt = matches!(a, Val::Num { inexact: true, .. });
        if same(r, &a, c) || same(r, &b, c) {
            Ok(nt)
        } else {
            Err(format!("got {} want {} or {}", show(r), showv(&a), showv(&b)))
        }
    } else {
        let mut a = round_ref(neg, m, e2, sticky, p, rm);
        orflag(&mut a, argflag);
        let nt = match &a {
            Val::Num { inexact, .. } => *inexact,
            _ => true,
        };
        if same(r, &a, c) {
            Ok(nt)
        } else {
            Err(format!("got {} want {}", show(r), showv(&a)))
        }
    }
}

pub fn orflag(v: &mut Val, f: bool) {
    if let Val::Num { inexact, .. } = v {
        *inexact |= f;
    }
}

pub fn is_err(b: &BigFloat, want: &[&str]) -> bool {
    b.is_nan() && b.err().map_or(want.contains(&"none"), |e| {
        let k = match e {
            Error::InvalidArgument => "invalid",
            Error::DivisionByZero => "divzero",
            Error::MemoryAllocation => "mem",
            Error::ExponentOverflow(_) => "overflow",
        };
        want.contains(&k)
    })
}

/// bit-for-bit identity of two library values
pub fn ident(a: &BigFloat, b: &BigFloat) -> bool {
    match (a.as_raw_parts(), b.as_raw_parts()) {
        (Some(x), Some(y)) => x == y,
        (None, None) => {
            a.is_nan() == b.is_nan()
                && a.is_inf_pos() == b.is_inf_pos()
                && a.is_inf_neg() == b.is_inf_neg()
                && format!("{:?}", a.err()) == format!("{:?}", b.err())
        }
        _ => false,
    }
}
