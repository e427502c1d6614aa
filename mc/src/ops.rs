//! One table of every public operation, applied by name: shared by the history, fault, memory,
//! totality, reachability and configuration explorations. Independent of the reference arithmetic.

use astro_float_num::{BigFloat, Consts, Error, Exponent, Radix, RoundingMode as RM, Sign};
use std::fmt::Write;

/// what an operation takes
pub const X: u32 = 1;
pub const Y: u32 = 2;
pub const Z: u32 = 4;
pub const P: u32 = 8;
pub const R: u32 = 16;
/// count, shift, exponent, radix or accuracy, as the operation defines it
pub const N: u32 = 32;
pub const S: u32 = 64;
pub const CC: u32 = 128;

pub const OPS: &[(&str, u32)] = &[
    ("add", X | Y | P | R),
    ("sub", X | Y | P | R),
    ("mul", X | Y | P | R),
    ("div", X | Y | P | R),
    ("add_full_prec", X | Y),
    ("sub_full_prec", X | Y),
    ("mul_full_prec", X | Y),
    ("rem", X | Y),
    ("pow", X | Y | P | R | CC),
    ("log", X | Y | P | R | CC),
    ("powi", X | N | P | R),
    ("sqrt", X | P | R),
    ("cbrt", X | P | R),
    ("reciprocal", X | P | R),
    ("exp", X | P | R | CC),
    ("ln", X | P | R | CC),
    ("log2", X | P | R | CC),
    ("log10", X | P | R | CC),
    ("sin", X | P | R | CC),
    ("cos", X | P | R | CC),
    ("tan", X | P | R | CC),
    ("asin", X | P | R | CC),
    ("acos", X | P | R | CC),
    ("atan", X | P | R | CC),
    ("sinh", X | P | R | CC),
    ("cosh", X | P | R | CC),
    ("tanh", X | P | R | CC),
    ("asinh", X | P | R | CC),
    ("acosh", X | P | R | CC),
    ("atanh", X | P | R | CC),
    ("int", X),
    ("fract", X),
    ("ceil", X),
    ("floor", X),
    ("abs", X),
    ("neg", X),
    ("signum", X),
    ("clone", X),
    ("inv_sign", X),
    ("set_sign", X | N),
    ("set_inexact", X | N),
    ("round", X | N | R),
    ("set_precision", X | P | R),
    ("try_set_precision", X | P | R | N),
    ("set_exponent", X | N),
    ("max", X | Y),
    ("min", X | Y),
    ("clamp", X | Y | Z),
    ("cmp", X | Y),
    ("queries", X),
    ("pi", P | R | CC),
    ("e", P | R | CC),
    ("ln_2", P | R | CC),
    ("ln_10", P | R | CC),
    ("format", X | N | R | CC),
    ("convert_to_radix", X | N | R | CC),
    ("parse", S | N | P | R | CC),
    ("convert_from_radix", S | N | P | R | CC),
    ("new", P),
    ("from_f64", P | N),
    ("from_f32", P | N),
    ("from_word", P | N),
    ("from_ints", P | N),
    ("from_prims", N),
    ("from_ext", P | R | N | CC),
    ("max_value", P),
    ("min_value", P),
    ("min_positive", P),
    ("min_positive_normal", P),
    ("from_words", X | N),
    ("from_raw_parts", X | N),
    #[cfg(feature = "full")]
    ("display", X),
    #[cfg(feature = "full")]
    ("from_str", S),
];

pub struct A<'a> {
    pub x: &'a BigFloat,
    pub y: &'a BigFloat,
    pub z: &'a BigFloat,
    pub p: usize,
    pub rm: RM,
    pub n: u64,
    pub s: &'a str,
}

pub enum Res {
    B(BigFloat),
    T(Result<String, Error>),
    D(Result<(Sign, Vec<u8>, Exponent), Error>),
    I(Option<i128>),
    U(u64),
    F(bool, BigFloat),
    L([BigFloat; 11]),
    /// digest of text written by the display traits, and whether "Err" was written
    H(u64, bool),
}

struct HashWriter(u64, bool);
impl Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 |= s == "Err";
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

pub fn radix(n: u64) -> Radix {
    [Radix::Dec, Radix::Bin, Radix::Oct, Radix::Hex][(n % 4) as usize]
}

pub fn index(name: &str) -> usize {
    OPS.iter().position(|o| o.0 == name).unwrap_or_else(|| panic!("no operation {}", name))
}

fn cmpbits(x: &BigFloat, y: &BigFloat) -> u64 {
    let mut v = 0u64;
    for b in [x == y, x < y, x <= y, x > y, x >= y] {
        v = v * 2 + b as u64;
    }
    for c in [x.cmp(y).map(|c| c.signum() as i64), x.abs_cmp(y).map(|c| c.signum() as i64), x.partial_cmp(y).map(|c| c as i64)] {
        v = v * 8 + c.map(|c| (c + 1) as u64).unwrap_or(7);
    }
    v
}

fn queries(x: &BigFloat) -> u64 {
    let mut v = 0u64;
    for b in [x.is_inf_pos(), x.is_inf_neg(), x.is_inf(), x.is_nan(), x.is_int(), x.is_positive(), x.is_negative(), x.is_subnormal(), x.is_zero(), x.inexact(), x.err().is_some()] {
        v = v * 2 + b as u64;
    }
    v = v * 8 + x.classify() as u64;
    for o in [x.exponent().map(|e| e as i64), x.precision().map(|p| p as i64), x.mantissa_max_bit_len().map(|p| p as i64), x.sign().map(|s| s as i64)] {
        v = v.wrapping_mul(0x100000001b3).wrapping_add(o.map(|a| a as u64).unwrap_or(0x5555));
    }
    for w in x.mantissa_digits().unwrap_or(&[]) {
        v = v.wrapping_mul(0x100000001b3) ^ *w;
    }
    v
}

pub fn apply(op: usize, a: &A, cc: &mut Consts) -> Res {
    use Res::*;
    let (x, y, p, rm, n) = (a.x, a.y, a.p, a.rm, a.n);
    B(match OPS[op].0 {
        "add" => x.add(y, p, rm),
        "sub" => x.sub(y, p, rm),
        "mul" => x.mul(y, p, rm),
        "div" => x.div(y, p, rm),
        "add_full_prec" => x.add_full_prec(y),
        "sub_full_prec" => x.sub_full_prec(y),
        "mul_full_prec" => x.mul_full_prec(y),
        "rem" => x.rem(y),
        "pow" => x.pow(y, p, rm, cc),
        "log" => x.log(y, p, rm, cc),
        "powi" => x.powi(n as usize, p, rm),
        "sqrt" => x.sqrt(p, rm),
        "cbrt" => x.cbrt(p, rm),
        "reciprocal" => x.reciprocal(p, rm),
        "exp" => x.exp(p, rm, cc),
        "ln" => x.ln(p, rm, cc),
        "log2" => x.log2(p, rm, cc),
        "log10" => x.log10(p, rm, cc),
        "sin" => x.sin(p, rm, cc),
        "cos" => x.cos(p, rm, cc),
        "tan" => x.tan(p, rm, cc),
        "asin" => x.asin(p, rm, cc),
        "acos" => x.acos(p, rm, cc),
        "atan" => x.atan(p, rm, cc),
        "sinh" => x.sinh(p, rm, cc),
        "cosh" => x.cosh(p, rm, cc),
        "tanh" => x.tanh(p, rm, cc),
        "asinh" => x.asinh(p, rm, cc),
        "acosh" => x.acosh(p, rm, cc),
        "atanh" => x.atanh(p, rm, cc),
        "int" => x.int(),
        "fract" => x.fract(),
        "ceil" => x.ceil(),
        "floor" => x.floor(),
        "abs" => x.abs(),
        "neg" => x.neg(),
        "signum" => x.signum(),
        "clone" => x.clone(),
        "inv_sign" => {
            let mut r = x.clone();
            r.inv_sign();
            r
        }
        "set_sign" => {
            let mut r = x.clone();
            r.set_sign(if n % 2 == 0 { Sign::Pos } else { Sign::Neg });
            r
        }
        "set_inexact" => {
            let mut r = x.clone();
            r.set_inexact(n % 2 == 1);
            r
        }
        "round" => x.round(n as usize, rm),
        "set_precision" => {
            let mut r = x.clone();
            match r.set_precision(p, rm) {
                Ok(()) => r,
                Err(e) => BigFloat::nan(Some(e)),
            }
        }
        "try_set_precision" => {
            let mut r = x.clone();
            let b = r.try_set_precision(p, rm, n as usize);
            return if b { F(true, r) } else { U(0) };
        }
        "set_exponent" => {
            let mut r = x.clone();
            r.set_exponent(n as i64 as Exponent);
            r
        }
        "max" => x.max(y),
        "min" => x.min(y),
        "clamp" => x.clamp(y, a.z),
        "cmp" => return U(cmpbits(x, y)),
        "queries" => return U(queries(x)),
        "pi" => cc.pi(p, rm),
        "e" => cc.e(p, rm),
        "ln_2" => cc.ln_2(p, rm),
        "ln_10" => cc.ln_10(p, rm),
        "format" => return T(x.format(radix(n), rm, cc)),
        "convert_to_radix" => return D(x.convert_to_radix(radix(n), rm, cc)),
        "parse" => BigFloat::parse(a.s, radix(n), p, rm, cc),
        "convert_from_radix" => {
            let r = radix(n);
            let b = [10, 2, 8, 16][(n % 4) as usize];
            // digits and exponent from the text: no allocation here
            let mut d = [0u8; 512];
            let mut l = 0;
            for c in a.s.bytes().take(512) {
                if let Some(v) = (c as char).to_digit(b) {
                    d[l] = v as u8;
                    l += 1;
                }
            }
            BigFloat::convert_from_radix(if n & 4 == 0 { Sign::Pos } else { Sign::Neg }, &d[..l], (n as i64 >> 3) as Exponent, r, p, rm, cc)
        }
        "new" => BigFloat::new(p),
        "from_f64" => BigFloat::from_f64(f64::from_bits(n), p),
        "from_f32" => BigFloat::from_f32(f32::from_bits(n as u32), p),
        "from_word" => BigFloat::from_word(n, p),
        "from_ints" => {
            return L([
                BigFloat::from_i8(n as i8, p),
                BigFloat::from_i16(n as i16, p),
                BigFloat::from_i32(n as i32, p),
                BigFloat::from_i64(n as i64, p),
                BigFloat::from_i128((n as i128) << 37, p),
                BigFloat::from_i128(-((n as i128) << 63), p),
                BigFloat::from_u8(n as u8, p),
                BigFloat::from_u16(n as u16, p),
                BigFloat::from_u32(n as u32, p),
                BigFloat::from_u64(n, p),
                BigFloat::from_u128((n as u128) << 64 | 5, p),
            ])
        }
        "from_prims" => {
            return L([
                BigFloat::from(n as i8),
                BigFloat::from(n as i32),
                BigFloat::from(n as i64),
                BigFloat::from(-((n as i128) << 60)),
                BigFloat::from(n as u16),
                BigFloat::from(n),
                BigFloat::from((n as u128) << 63),
                BigFloat::from(f64::from_bits(n)),
                BigFloat::from(f32::from_bits(n as u32)),
                BigFloat::default(),
                BigFloat::from(n as i16),
            ])
        }
        "from_ext" => {
            use astro_float_num::FromExt;
            let t = ["-1.75e3", "3.1415926535897932384626433832795", "", "inf"][(n % 4) as usize];
            return L([
                BigFloat::from_ext(n as i8, p, rm, cc),
                BigFloat::from_ext(n as u32, p, rm, cc),
                BigFloat::from_ext(n as i64, p, rm, cc),
                BigFloat::from_ext((n as u128) << 64 | 3, p, rm, cc),
                BigFloat::from_ext(-((n as i128) << 60 | 1), p, rm, cc),
                BigFloat::from_ext(f64::from_bits(n), p, rm, cc),
                BigFloat::from_ext(f32::from_bits(n as u32), p, rm, cc),
                BigFloat::from_ext(n, p, rm, cc),
                BigFloat::from_ext(t, p, rm, cc),
                BigFloat::from_ext(n as i32, p, rm, cc),
                BigFloat::from_ext(n as u16, p, rm, cc),
            ]);
        }
        "max_value" => BigFloat::max_value(p),
        "min_value" => BigFloat::min_value(p),
        "min_positive" => BigFloat::min_positive(p),
        "min_positive_normal" => BigFloat::min_positive_normal(p),
        "from_words" => BigFloat::from_words(x.mantissa_digits().unwrap_or(&[]), Sign::Pos, n as i64 as Exponent),
        "from_raw_parts" => match x.as_raw_parts() {
            Some((m, b, s, e, i)) => BigFloat::from_raw_parts(m, b.wrapping_add(n as usize), s, e, i),
            None => BigFloat::from_raw_parts(&[], n as usize, Sign::Pos, 0, false),
        },
        #[cfg(feature = "full")]
        "display" => {
            let mut s = HashWriter(0xcbf29ce484222325, false);
            let r = write!(s, "{}|{:b}|{:o}|{:X}", x, x, x, x);
            return H(s.0, s.1 || r.is_err());
        }
        #[cfg(feature = "full")]
        "from_str" => a.s.parse::<BigFloat>().unwrap_or_else(|e| BigFloat::nan(Some(e))),
        s => panic!("operation {} is not in the table", s),
    })
}

pub fn text(b: &BigFloat, o: &mut String) {
    match b.as_raw_parts() {
        Some((m, n, s, e, i)) => {
            let _ = write!(o, "{}", if s == Sign::Neg { '-' } else { '+' });
            for w in m.iter().rev() {
                let _ = write!(o, "{:x},", w);
            }
            let _ = write!(o, "n{}e{}{}", n, e, if i { "~" } else { "" });
        }
        None => {
            if b.is_inf_pos() {
                o.push_str("Inf");
            } else if b.is_inf_neg() {
                o.push_str("-Inf");
            } else {
                let _ = write!(o, "NaN({:?})", b.err());
            }
        }
    }
}

/// every observable detail of a result
pub fn show(r: &Res) -> String {
    let mut o = String::new();
    match r {
        Res::B(b) => text(b, &mut o),
        Res::T(t) => o = format!("{:?}", t),
        Res::D(d) => o = format!("{:?}", d),
        Res::I(i) => o = format!("{:?}", i),
        Res::U(u) => o = format!("{:x}", u),
        Res::F(f, b) => {
            o = format!("{} ", f);
            text(b, &mut o);
        }
        Res::H(h, e) => o = format!("{:x}{}", h, if *e { " Err" } else { "" }),
        Res::L(v) => {
            for b in v {
                text(b, &mut o);
                o.push(' ');
            }
        }
    }
    o
}

/// the numbers in a result
pub fn numbers(r: Res) -> Vec<BigFloat> {
    match r {
        Res::B(b) => vec![b],
        Res::F(_, b) => vec![b],
        Res::L(v) => v.into(),
        _ => vec![],
    }
}

/// Does the result report a failed allocation?
pub fn is_mem_error(r: &Res) -> bool {
    let m = |b: &BigFloat| b.is_nan() && matches!(b.err(), Some(Error::MemoryAllocation));
    match r {
        Res::B(b) => m(b),
        Res::T(Err(Error::MemoryAllocation)) | Res::D(Err(Error::MemoryAllocation)) => true,
        Res::F(_, b) => m(b),
        Res::L(v) => v.iter().any(m),
        Res::H(_, e) => *e,
        _ => false,
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
