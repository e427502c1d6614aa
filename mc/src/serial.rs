//! Serialization: C28.
use crate::alpha::*;
use crate::core::*;
use crate::edges::canon;
use crate::oracle::*;
use crate::text::{check_dec, check_parse, dec_digits, read, Tx};
use astro_float_num::{BigFloat, Exponent, Radix, RoundingMode as RM};
use rug::Integer;
use serde::de::value::*;
use serde::de::{Deserialize, IntoDeserializer};

type E = serde::de::value::Error;

/// the value must be exactly (-1)^neg * m * 2^e
fn exactly(b: &Result<BigFloat, String>, neg: bool, m: &Integer, e: i64) -> Result<bool, String> {
    match b {
        Err(x) => Err(format!("rejected: {}", x)),
        Ok(b) => {
            canon(b)?;
            match b.mantissa_max_bit_len() {
                None => Err(format!("got {}", show(b))),
                Some(p) => {
                    if (p as u64) < 64 {
                        return Err(format!("precision {}", p));
                    }
                    let (d, t) = (dy(b), Dy::new(neg, m.clone(), e));
                    let same = if *m == 0 { d.is_zero() && b.is_positive() } else { !d.is_zero() && d.cmp(&t) == std::cmp::Ordering::Equal };
                    if !same || b.inexact() {
                        Err(format!("got {}", show(b)))
                    } else {
                        Ok(*m != 0)
                    }
                }
            }
        }
    }
}

fn float(b: &Result<BigFloat, String>, f: f64) -> Result<bool, String> {
    if f.is_nan() {
        return match b {
            Err(_) => Ok(false),
            Ok(x) if x.is_nan() => Ok(false),
            Ok(x) => Err(format!("got {} from NaN", show(x))),
        };
    }
    if f.is_infinite() {
        return match b {
            Err(_) => Ok(false),
            Ok(x) if x.is_inf_pos() && f > 0.0 || x.is_inf_neg() && f < 0.0 => Ok(false),
            Ok(x) => Err(format!("got {} from {}", show(x), f)),
        };
    }
    let u = f.to_bits();
    let (neg, ex, fr) = (u >> 63 == 1, (u >> 52 & 0x7ff) as i64, u & ((1 << 52) - 1));
    let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | 1 << 52, ex - 1075) };
    if m == 0 {
        // the sign of a zero is not kept by the conversion of primitive values
        return match b {
            Ok(x) if x.is_zero() => canon(x).map(|_| false),
            Ok(x) => Err(format!("got {}", show(x))),
            Err(x) => Err(x.clone()),
        };
    }
    exactly(b, neg, &Integer::from(m), e)
}

/// Text read by the deserializer must be what the text denotes; if it is no number, NaN or an error.
fn string(b: &Result<BigFloat, String>, s: &str) -> Result<bool, String> {
    let t = read(s, Radix::Dec);
    match (&t, b) {
        (Tx::Nan, Err(_)) => {
            if s.trim_start_matches(['+', '-']).eq_ignore_ascii_case("nan") && s.len() <= 4 {
                Err("NaN is refused".into())
            } else {
                Ok(false)
            }
        }
        (Tx::Nan, Ok(x)) => {
            // parsing gives NaN, without an error, for text that is not a number
            if x.is_nan() {
                Ok(false)
            } else {
                Err(format!("got {} from malformed text", show(x)))
            }
        }
        (_, Err(x)) => Err(format!("refused: {}", x)),
        (_, Ok(x)) => {
            if !x.is_inf() {
                canon(x)?;
            }
            check_parse(x, &t, Radix::Dec, usize::MAX, RM::ToEven)
        }
    }
}

fn js(s: &str) -> Result<BigFloat, String> {
    serde_json::from_str::<BigFloat>(s).map_err(|e| e.to_string())
}

fn de<'a, D: IntoDeserializer<'a, E>>(v: D) -> Result<BigFloat, String> {
    BigFloat::deserialize(v.into_deserializer()).map_err(|e| e.to_string())
}

/// A JSON document, against the reading of serde_json itself.
fn document(s: &str) -> Result<bool, String> {
    let b = js(s);
    let refused = |what: &str| match &b {
        Err(_) => Ok(false),
        Ok(x) => Err(format!("{} gives {}", what, show(x))),
    };
    match serde_json::from_str::<serde_json::Value>(s) {
        Err(_) => refused("not JSON"),
        Ok(v) => {
            let c = match BigFloat::deserialize(v.clone()) {
                Ok(x) => {
                    if !b.as_ref().map(|y| ident(&x, y)).unwrap_or(false) {
                        return Err(format!("value {:?} gives {}, the document gives {:?}", v, show(&x), b.as_ref().map(show)));
                    }
                    true
                }
                Err(_) => false,
            };
            if c != b.is_ok() {
                return Err(format!("value {:?} gives an error, the document {:?}", v, b.as_ref().map(show)));
            }
            match &v {
                serde_json::Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        exactly(&b, false, &Integer::from(u), 0)
                    } else if let Some(i) = n.as_i64() {
                        exactly(&b, i < 0, &Integer::from(i.unsigned_abs()), 0)
                    } else {
                        float(&b, n.as_f64().unwrap())
                    }
                }
                serde_json::Value::String(s) => string(&b, s),
                _ => refused("neither number nor text"),
            }
        }
    }
}

/// number -> document -> number
fn round_trip(x: &BigFloat) -> Result<bool, String> {
    let j = serde_json::to_string(x).map_err(|e| format!("serialization fails: {}", e))?;
    let s: String = serde_json::from_str(&j).map_err(|e| format!("{} is not text: {}", j, e))?;
    let t = read(&s, Radix::Dec);
    match (&t, decode(x)) {
        (Tx::Nan, None) if x.is_nan() && s.eq_ignore_ascii_case("nan") => {}
        (Tx::Inf(n), None) if x.is_inf() && *n == x.is_inf_neg() => {}
        (Tx::Num { neg, d, e, .. }, Some(dx)) => {
            check_dec(&dx, *neg, d, *e, dec_digits(x.mantissa_max_bit_len().unwrap()), RM::ToEven).map_err(|e| format!("{} {}", s, e))?;
        }
        _ => return Err(format!("is written {}", s)),
    }
    for (k, y) in [js(&j), serde_json::to_value(x).map_err(|e| e.to_string()).and_then(|v| BigFloat::deserialize(v).map_err(|e| e.to_string()))].iter().enumerate() {
        let c = string(y, &s).map_err(|e| format!("{} read back by route {}: {}", s, k, e))?;
        let y = y.as_ref().unwrap();
        if x.is_nan() != y.is_nan() || x.is_inf_pos() != y.is_inf_pos() || x.is_inf_neg() != y.is_inf_neg() || x.is_zero() != y.is_zero() || x.sign() != y.sign() {
            return Err(format!("{} became {}", show(x), show(y)));
        }
        if k == 1 {
            return Ok(c);
        }
    }
    unreachable!()
}

pub fn c28(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one number serialized, its text checked against the exact value and read back; or one datum (text, integer, float, JSON document, datum of another type) deserialized and compared with what it denotes; nontrivial = a finite non-zero number results".into();
    r.assumptions.lock().unwrap().push("serde_json's own reading of a document is taken as its meaning (floating-point literals included); infinite and NaN floats may be refused or give infinity and NaN.".into());
    let ms = nums(&mants(r.t(12, 16), r.t((6, 8), (10, 12)), r.t((3, 4, 4), (5, 6, 6)), r.t((2, 2, 2, 2), (3, 4, 4, 4))), 0);
    let mut es: Vec<i64> = r.t(
        (-70..=70).step_by(3).chain([127, 128, 129, 192, 193, -127, -128, -129, 1000, -1000, EMAX, EMAX - 1, EMIN, EMIN + 1, EMIN + 64, EMIN + 128]).collect::<Vec<_>>(),
        (-300..=300).chain([1000, -1000, 3321, -3321, 10000, -10000, EMAX, EMAX - 1, EMIN, EMIN + 1, EMIN + 64, EMIN + 128]).collect(),
    );
    es.extend(crate::arith::all_exps());
    es.sort();
    es.dedup();
    r.space(
        "numbers",
        &[ms.len(), es.len(), 2],
        |i| format!("{} e={} neg={}", show(&ms[i[0]]), es[i[1]], i[2]),
        |i, w| {
            let mut x = with_exp(&ms[i[0]], es[i[1]] as Exponent);
            if i[2] == 1 {
                x.inv_sign();
            }
            w.sub(round_trip(&x), String::new);
        },
    );
    r.space(
        "subnormal",
        &[191, 3, 2],
        |i| format!("2^{} words={} neg={}", i[0], i[1] + 1, i[2]),
        |i, w| {
            let n = i[1] + 1;
            if i[0] + 1 >= n * 64 {
                return;
            }
            let m = (Integer::from(1) << i[0] as u32) + if i[0] % 3 == 0 { 0 } else { 1 };
            let x = mk(&to_words(&m, n), i[2] == 1, EMIN as Exponent);
            w.sub(round_trip(&x), || show(&x));
        },
    );
    // containers and everything that is not a plain number
    let mut sp: Vec<BigFloat> = vec![astro_float_num::NAN, astro_float_num::INF_POS, astro_float_num::INF_NEG, BigFloat::nan(Some(astro_float_num::Error::InvalidArgument))];
    for p in [0usize, 1, 64, 65, 128, 1000] {
        let z = BigFloat::new(p);
        sp.push(z.neg());
        sp.push(z);
        sp.push(BigFloat::max_value(p));
        sp.push(BigFloat::min_value(p));
        sp.push(BigFloat::min_positive(p));
        sp.push(BigFloat::min_positive_normal(p));
        sp.push(BigFloat::from_word(1, p));
    }
    r.space(
        "special",
        &[sp.len()],
        |i| show(&sp[i[0]]),
        |i, w| {
            let x = &sp[i[0]];
            w.sub(round_trip(x), String::new);
            let many = vec![x.clone(), BigFloat::from_word(3, 64), x.clone()];
            let j = serde_json::to_string(&many).unwrap_or_default();
            let one = serde_json::to_string(x).unwrap_or_default();
            let c = match serde_json::from_str::<Vec<BigFloat>>(&j) {
                Ok(v) if v.len() == 3 && ident(&v[0], &v[2]) && js(&one).map(|y| ident(&y, &v[0])).unwrap_or(false) => Ok(false),
                Ok(v) => Err(format!("{:?}", v.iter().map(show).collect::<Vec<_>>())),
                Err(e) => Err(e.to_string()),
            };
            w.sub(c, || format!("vector {}", j));
            let c = match serde_json::from_str::<Option<BigFloat>>(&one) {
                Ok(Some(y)) if js(&one).map(|z| ident(&y, &z)).unwrap_or(false) => Ok(false),
                _ => Err("optional number is lost".into()),
            };
            w.sub(c, || one.clone());
            let c = if serde_json::from_str::<Option<BigFloat>>("null").map(|v| v.is_none()).unwrap_or(false) { Ok(false) } else { Err("null is not None".into()) };
            w.sub(c, String::new);
        },
    );
    // integers
    r.space(
        "small-integers",
        &[65536],
        |i| format!("{}", i[0] as i64 - 32768),
        |i, w| {
            let v = i[0] as i16;
            let (neg, m) = (v < 0, Integer::from(v.unsigned_abs()));
            w.sub(exactly(&de(v), neg, &m, 0), || "i16".into());
            w.sub(exactly(&de(v as i32), neg, &m, 0), || "i32".into());
            w.sub(exactly(&de(v as i64), neg, &m, 0), || "i64".into());
            w.sub(exactly(&de(v as u16), false, &Integer::from(v as u16), 0), || "u16".into());
            w.sub(exactly(&de(v as u32), false, &Integer::from(v as u32), 0), || "u32".into());
            w.sub(exactly(&de(v as u64), false, &Integer::from(v as u64), 0), || "u64".into());
            w.sub(exactly(&de(v as usize), false, &Integer::from(v as usize), 0), || "usize".into());
            w.sub(exactly(&de(v as isize), neg, &m, 0), || "isize".into());
            w.sub(exactly(&de(v as i8), (v as i8) < 0, &Integer::from((v as i8).unsigned_abs()), 0), || "i8".into());
            w.sub(exactly(&de(v as u8), false, &Integer::from(v as u8), 0), || "u8".into());
            let s = v.to_string();
            w.sub(document(&s), || s.clone());
            w.sub(exactly(&js(&s), neg, &m, 0), || format!("JSON {}", s));
        },
    );
    let nd = r.t(6i64, 60);
    r.space(
        "integers",
        &[129, (2 * nd + 1) as usize, 2],
        |i| format!("2^{} + {} neg={}", i[0], i[1] as i64 - nd, i[2]),
        |i, w| {
            let v = (Integer::from(1) << i[0] as u32) + (i[1] as i64 - nd);
            let v = if i[2] == 1 { -v } else { v };
            let (neg, m) = (v < 0, v.clone().abs());
            if let Some(x) = v.to_i128() {
                w.sub(exactly(&BigFloat::deserialize(I128Deserializer::<E>::new(x)).map_err(|e| e.to_string()), neg, &m, 0), || "i128".into());
            }
            if let Some(x) = v.to_u128() {
                w.sub(exactly(&BigFloat::deserialize(U128Deserializer::<E>::new(x)).map_err(|e| e.to_string()), neg, &m, 0), || "u128".into());
            }
            if let Some(x) = v.to_i64() {
                w.sub(exactly(&de(x), neg, &m, 0), || "i64".into());
            }
            if let Some(x) = v.to_u64() {
                w.sub(exactly(&de(x), neg, &m, 0), || "u64".into());
            }
            if let Some(x) = v.to_i32() {
                w.sub(exactly(&de(x), neg, &m, 0), || "i32".into());
            }
            if let Some(x) = v.to_u32() {
                w.sub(exactly(&de(x), neg, &m, 0), || "u32".into());
            }
            w.sub(document(&v.to_string()), || "JSON".into());
            w.sub(document(&format!("\"{}\"", v)), || "JSON text".into());
        },
    );
    // floats
    r.space(
        "f32",
        &[65536],
        |i| format!("f32 with upper half {:#06x}", i[0]),
        |i, w| {
            if r.quick() {
                for l in [0u32, 1, 2, 0x5555, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff] {
                    let f = f32::from_bits((i[0] as u32) << 16 | l);
                    w.sub(float(&de(f), f as f64), || format!("f32 {:e}", f));
                }
            } else {
                for l in 0..65536u32 {
                    let f = f32::from_bits((i[0] as u32) << 16 | l);
                    w.sub(float(&de(f), f as f64), || format!("f32 {:e}", f));
                }
            }
        },
    );
    let fm: Vec<u64> = {
        let mut v = vec![0u64, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa, 0x3_243f_6a88_85a3];
        for k in (0..52).step_by(r.t(3, 1)) {
            v.extend([1u64 << k, (1 << k) - 1, ((1u64 << 52) - 1) ^ (1 << k), ((1 << 52) - 1) >> k]);
        }
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "f64",
        &[4096, fm.len()],
        |i| format!("f64 sign and exponent {:#x} mantissa {:#x}", i[0], fm[i[1]]),
        |i, w| {
            let f = f64::from_bits((i[0] as u64) << 52 | fm[i[1]]);
            w.sub(float(&de(f), f), || format!("f64 {:e}", f));
        },
    );
    // text
    let al: Vec<char> = "+-.059einfa x".chars().collect();
    for l in 0..=r.t(5, 6) {
        r.space(
            &format!("text-{}", l),
            &[al.len().pow(l as u32)],
            |i| format!("text #{}", i[0]),
            |i, w| {
                let mut k = i[0];
                let s: String = (0..l)
                    .map(|_| {
                        let c = al[k % al.len()];
                        k /= al.len();
                        c
                    })
                    .collect();
                w.sub(string(&de(s.as_str()), &s), || format!("{:?}", s));
                w.sub(string(&de(s.clone()), &s), || format!("owned {:?}", s));
                w.sub(string(&BigFloat::deserialize(BorrowedStrDeserializer::<E>::new(&s)).map_err(|e| e.to_string()), &s), || format!("borrowed {:?}", s));
                w.sub(document(&format!("\"{}\"", s)), || format!("JSON text {:?}", s));
                w.sub(document(&s), || format!("JSON {:?}", s));
            },
        );
    }
    let long = [
        "123456789012345678901234567890", "0.1", "-0.1e-5", "1e400", "-1e-400", "1e99999999999", "-1e99999999999", "1e-99999999999", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
        "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "nan", "NaN", "-NaN", "+nan", "nano", "inf", "-Inf", "infinity", "-Infinity", "infinit", "Err", "err", "null", "true", "1_000", "0x10", "1 000", " 1", "1 ",
        "1e5e5", "٣", "1\u{0}", "\u{feff}1", "1e646456993", "1e646456994", "-1e-646456993", "1e-646457012", "1e-646457050", "1.7976931348623159e308",
    ];
    r.space(
        "long-text",
        &[long.len()],
        |i| format!("{:?}", long[i[0]]),
        |i, w| {
            let s = long[i[0]];
            w.sub(string(&de(s), s), String::new);
            let j = serde_json::to_string(s).unwrap();
            w.sub(document(&j), || j.clone());
            w.sub(document(s), || format!("JSON {}", s));
        },
    );
    // documents
    let al: Vec<char> = "-+019.eE\"[]{}:, ntul".chars().collect();
    for l in 0..=r.t(5, 6) {
        r.space(
            &format!("documents-{}", l),
            &[al.len().pow(l as u32)],
            |i| format!("document #{}", i[0]),
            |i, w| {
                let mut k = i[0];
                let s: String = (0..l)
                    .map(|_| {
                        let c = al[k % al.len()];
                        k /= al.len();
                        c
                    })
                    .collect();
                w.sub(document(&s), || format!("JSON {:?}", s));
            },
        );
    }
    // data of other types
    r.space(
        "other-types",
        &[10, 128],
        |i| format!("kind {} n={}", i[0], i[1]),
        |i, w| {
            let n = i[1];
            let c = char::from_u32(n as u32).unwrap();
            let b = match i[0] {
                0 => de(n % 2 == 1),
                1 => de(()),
                2 => BigFloat::deserialize(BytesDeserializer::<E>::new(&[n as u8, 0, 1])).map_err(|e| e.to_string()),
                3 => BigFloat::deserialize(SeqDeserializer::<_, E>::new(vec![n as u64; n % 4].into_iter())).map_err(|e| e.to_string()),
                4 => BigFloat::deserialize(MapDeserializer::<_, E>::new(vec![("e", n as u64); n % 4].into_iter())).map_err(|e| e.to_string()),
                5 => js(["null", "true", "false", "[]", "{}", "[1]", "[\"1\"]", "{\"1\":1}"][n % 8]),
                6 => BigFloat::deserialize(BorrowedBytesDeserializer::<E>::new(b"1.5")).map_err(|e| e.to_string()),
                7 => BigFloat::deserialize(UnitDeserializer::<E>::new()).map_err(|e| e.to_string()),
                8 => js(&"[".repeat(n)),
                _ => {
                    let s = c.to_string();
                    w.sub(string(&de(c), &s), || format!("character {:?}", c));
                    return;
                }
            };
            w.sub(
                match b {
                    Err(_) => Ok(false),
                    Ok(x) => Err(format!("gives {}", show(&x))),
                },
                String::new,
            );
        },
    );
}
