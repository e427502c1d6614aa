//! C22 (allocation failures) and C23 (contents of fresh memory): the process allocator is the
//! environment of the library and is controlled per thread.

use crate::core::*;
use crate::iso::*;
use crate::ops::{self, *};
use crate::oracle::*;
use astro_float_num::{BigFloat, Consts, RoundingMode as RM};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Env;

thread_local! {
    /// fail the allocation with this number (0: none)
    static FAIL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// fail allocations greater than this
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// word pattern written to fresh and to released memory; mode 0: off, 1: constant, 2: varies with the address
    static FILL: Cell<(u8, u64)> = const { Cell::new((0, 0)) };
}

unsafe fn fill(p: *mut u8, n: usize) {
    let (mode, pat) = FILL.with(|f| f.get());
    if mode != 0 && !p.is_null() {
        let mut v = pat;
        let mut i = 0;
        while i + 8 <= n {
            if mode == 2 {
                v = (v ^ (i as u64 + 1)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
            }
            (p.add(i) as *mut u64).write_unaligned(v);
            i += 8;
        }
        for j in i..n {
            *p.add(j) = (v >> (8 * (j - i))) as u8;
        }
    }
}

fn refuse(n: usize) -> bool {
    if n > LIMIT.with(|l| l.get()) {
        return true;
    }
    let k = FAIL.with(|f| f.get());
    if k != 0 {
        let c = COUNT.with(|c| c.get()) + 1;
        COUNT.with(|x| x.set(c));
        return c == k;
    }
    false
}

unsafe impl GlobalAlloc for Env {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        fill(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        fill(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if FILL.with(|f| f.get().0) == 0 {
            if refuse(n) {
                return std::ptr::null_mut();
            }
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// run `f` with the allocation number `k` failing; returns the result and whether it was reached
fn with_failure<T>(k: u64, f: impl FnOnce() -> T) -> (Result<T, String>, bool) {
    COUNT.with(|c| c.set(0));
    FAIL.with(|c| c.set(k));
    let r = guard(f);
    FAIL.with(|c| c.set(0));
    let hit = COUNT.with(|c| c.get()) >= k;
    (r, hit)
}

pub fn with_limit<T>(n: usize, f: impl FnOnce() -> T) -> T {
    LIMIT.with(|l| l.set(n));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(usize::MAX));
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn with_fill<T>(mode: u8, pat: u64, f: impl FnOnce() -> T) -> T {
    FILL.with(|l| l.set((mode, pat)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    FILL.with(|l| l.set((0, 0)));
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub struct Case {
    pub op: usize,
    pub x: BigFloat,
    pub y: BigFloat,
    pub z: BigFloat,
    pub p: usize,
    pub rm: RM,
    pub n: u64,
    pub s: String,
}

impl Case {
    pub fn new(op: &str, x: &BigFloat, y: &BigFloat, p: usize, rm: RM, n: u64, s: &str) -> Case {
        Case { op: index(op), x: x.clone(), y: y.clone(), z: x.clone(), p, rm, n, s: s.to_string() }
    }
    pub fn run(&self, cc: &mut Consts) -> Res {
        ops::apply(self.op, &A { x: &self.x, y: &self.y, z: &self.z, p: self.p, rm: self.rm, n: self.n, s: &self.s }, cc)
    }
    pub fn text(&self) -> String {
        let f = OPS[self.op].1;
        let mut s = format!("{}(", OPS[self.op].0);
        if f & X != 0 {
            s += &format!("x={} ", crate::oracle::show(&self.x));
        }
        if f & Y != 0 {
            s += &format!("y={} ", crate::oracle::show(&self.y));
        }
        if f & S != 0 {
            s += &format!("s={:.30}..({}) ", self.s, self.s.len());
        }
        if f & N != 0 {
            s += &format!("n={} ", self.n);
        }
        if f & P != 0 {
            s += &format!("p={} ", self.p);
        }
        if f & R != 0 {
            s += &format!("{:?}", self.rm);
        }
        s.trim_end().to_string() + ")"
    }
}

fn pat(w: usize, seed: u64, e: i32) -> BigFloat {
    let mut v: Vec<u64> = (0..w as u64).map(|i| (i + seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (i << 17)).collect();
    v[w - 1] |= 1 << 63;
    v[0] |= 1;
    mk(&v, false, e)
}

/// Every operation with arguments that reach its branches.
pub fn cases(level: usize) -> Vec<Case> {
    let mut v = vec![];
    let d = |n: i64, s: i64, p: usize| encode(&Dy { neg: n < 0, m: rug::Integer::from(n.abs()), e: -s }, p);
    let zero = BigFloat::new(64);
    let sub = BigFloat::min_positive(128);
    let half = d(1, 1, 64);
    let xs = [d(3, 1, 64), d(-7, 3, 128), pat(3, 5, 0), pat(2, 9, -90), pat(2, 11, 40)];
    for (oi, (name, f)) in OPS.iter().enumerate() {
        let _ = oi;
        match *name {
            "parse" | "from_str" | "convert_from_radix" => {
                let strs = ["1.5", "-12345678901234567890123456789.987654321e-40", "0.000", "Inf", "1x", "0.1e-700000000"];
                for (j, s) in strs.iter().enumerate() {
                    for rdx in 0..4u64 {
                        if *name == "from_str" && rdx > 0 {
                            continue;
                        }
                        let s: String = if rdx == 1 { s.chars().map(|c| if c.is_ascii_digit() { (b'0' + (c as u8 & 1)) as char } else { c }).collect() } else { s.to_string() };
                        v.push(Case::new(name, &zero, &zero, 128, RMS[j % 6], rdx | 8 * (j as u64 * 7), &s));
                        if level > 1 {
                            v.push(Case::new(name, &zero, &zero, usize::MAX, RM::ToEven, rdx, &s));
                        }
                    }
                }
                let long: String = "31415926535897932384626433".repeat(if level > 1 { 16 } else { 8 });
                v.push(Case::new(name, &zero, &zero, 256, RM::ToEven, 0, &long));
                continue;
            }
            _ => {}
        }
        let unary: Vec<BigFloat> = if f & X == 0 {
            vec![zero.clone()]
        } else if f & CC != 0 && f & Y == 0 {
            let inside = [half.clone(), pat(2, 3, 0), pat(1, 4, -3), pat(2, 7, -80)];
            match *name {
                "asin" | "acos" | "atanh" => inside.to_vec(),
                "acosh" => vec![d(3, 1, 64), pat(2, 9, 3), pat(1, 3, 70)],
                _ => vec![d(3, 1, 64), d(-7, 3, 128), pat(2, 5, 0), pat(1, 9, -90), pat(2, 11, 5), sub.clone()],
            }
        } else {
            let mut u = xs.to_vec();
            u.push(sub.clone());
            u.push(zero.clone());
            u.push(pat(9, 1, 1));
            u
        };
        let ys: Vec<BigFloat> = if f & Y == 0 {
            vec![half.clone()]
        } else if *name == "log" || *name == "pow" {
            vec![d(5, 1, 64), pat(2, 3, 2), d(-3, 0, 64)]
        } else {
            vec![half.clone(), pat(3, 8, -70), sub.clone(), pat(2, 11, 200)]
        };
        let (mut unary, mut ys) = (unary, ys);
        if level == 0 && f & CC != 0 {
            unary.truncate(if f & Y == 0 { 3 } else { 2 });
            ys.truncate(2);
        }
        let ps: Vec<usize> = if f & P == 0 {
            vec![64]
        } else if f & CC != 0 {
            if level > 1 {
                vec![64, 192, 640]
            } else {
                vec![64, 192]
            }
        } else {
            vec![64, 320]
        };
        let ns: Vec<u64> = if f & N == 0 {
            vec![0]
        } else {
            match *name {
                "format" | "convert_to_radix" => vec![0, 1, 2, 3],
                "set_exponent" => vec![5, (-3000i64) as u64, astro_float_num::EXPONENT_MIN as i64 as u64],
                "from_f64" | "from_prims" => vec![1.5f64.to_bits(), 5e-324f64.to_bits(), 0],
                "from_raw_parts" => vec![0, 1],
                "powi" => vec![0, 3, 17, 1000],
                _ => vec![0, 3, 70],
            }
        };
        let mut k = 0;
        for x in &unary {
            for y in &ys {
                for &p in &ps {
                    for &n in &ns {
                        k += 1;
                        // exact results of operands with far apart exponents have hundreds of megabytes
                        let wide = |b: &BigFloat| b.exponent().map_or(false, |e| e < -100_000);
                        if ["add_full_prec", "sub_full_prec", "rem"].contains(name) && wide(x) != wide(y) {
                            continue;
                        }
                        v.push(Case::new(name, x, y, p, RMS[k % 7], n, ""));
                    }
                }
            }
        }
    }
    // sizes that select the other algorithms
    for w in if level > 1 { vec![40usize, 230, 6000] } else { vec![40, 230] } {
        let (a, b) = (pat(w, 1, 0), pat(w - w / 7, 2, 3));
        for name in ["mul", "mul_full_prec", "div", "rem", "sqrt", "cbrt", "reciprocal", "add", "clone"] {
            if level == 0 && w > 100 && ["sqrt", "cbrt", "rem"].contains(&name) {
                continue;
            }
            if w > 1000 && !["mul", "mul_full_prec", "div", "clone"].contains(&name) {
                continue;
            }
            v.push(Case::new(name, &a, &b, w * 64, RM::ToEven, 0, ""));
        }
    }
    v
}

fn idt(b: &BigFloat) -> String {
    let mut s = String::new();
    ops::text(b, &mut s);
    s
}

const PROBE: usize = 6;
fn probe(j: usize, cc: &mut Consts) -> BigFloat {
    match j {
        0 => cc.pi(192, RM::ToEven),
        1 => cc.e(192, RM::Up),
        2 => cc.ln_2(192, RM::Down),
        3 => cc.ln_10(192, RM::ToEven),
        4 => BigFloat::parse("1234567890123456789012345678901234567890.5e11", astro_float_num::Radix::Dec, 128, RM::ToEven, cc),
        _ => cc.pi(704, RM::ToEven),
    }
}

/// caches of different age
fn cache(age: usize) -> Consts {
    let mut cc = Consts::new().expect("cache");
    if age > 0 {
        for j in 0..5 {
            probe(j, &mut cc);
        }
    }
    cc
}

fn warm_statics() {
    let mut cc = Consts::new().expect("cache");
    for c in cases(1) {
        let _ = guard(|| c.run(&mut cc));
    }
}

/// Calls outside the table. Their texts are written without allocations of our own.
const OTHER: &[&str] = &[
    "random_normal 1",
    "random_normal 9",
    "Context::const_pi",
    "Context::const_e",
    "Context::const_ln2",
    "Context::const_ln10",
    "Context::clone",
    "serialize 1/3",
    "serialize -Inf",
    "serialize NaN",
    "serialize 0",
    "serialize 11 words",
    "deserialize u64",
    "deserialize i64",
    "deserialize u128",
    "deserialize i128",
    "deserialize f32",
    "deserialize f64",
    "deserialize str",
    "deserialize String",
    "deserialize infinite f32",
    "deserialize infinite f64",
    "deserialize NaN f64",
    "deserialize invalid str",
    "deserialize bool",
    "Binary",
    "Octal",
    "Display",
    "UpperHex",
    "Octal Inf",
    "Display of zero",
    "Binary with a width",
    "FromExt str",
    "FromExt f64",
    "FromExt u128",
    "FromExt subnormal f64",
    "Neg for reference",
    "From f64",
    "From i128",
    "FromStr",
    "FromStr invalid",
    "format Inf",
    "format NaN",
    "Debug",
];

/// text without allocation
struct Fixed(Vec<u8>, bool);
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.0.capacity() {
            self.1 = true;
            return Err(std::fmt::Error);
        }
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// an error of a serializer that holds no memory
#[derive(Debug)]
struct NoMem(u8);
impl std::fmt::Display for NoMem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.0 == 1 { "refused" } else { "error" })
    }
}
impl std::error::Error for NoMem {}
fn nomem<T: std::fmt::Display>(m: T) -> NoMem {
    use std::fmt::Write;
    let mut b = [0u8; 256];
    struct S<'a>(&'a mut [u8], usize);
    impl std::fmt::Write for S<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let n = s.len().min(self.0.len() - self.1);
            self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
            self.1 += n;
            Ok(())
        }
    }
    let mut w = S(&mut b, 0);
    let _ = write!(w, "{}", m);
    let t = std::str::from_utf8(&w.0[..w.1]).unwrap_or("");
    NoMem(if t.contains("MemoryAllocation") || t.contains("memory allocation failure") { 1 } else { 0 })
}
impl serde::ser::Error for NoMem {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        nomem(m)
    }
}
impl serde::de::Error for NoMem {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        nomem(m)
    }
}
/// gives one value to the visitor
struct One<'a>(u8, &'a str, Option<String>);
impl<'de> serde::Deserializer<'de> for One<'_> {
    type Error = NoMem;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, NoMem> {
        match self.0 {
            0 => v.visit_u64(12345678901234567890),
            1 => v.visit_i64(-5),
            2 => v.visit_u128(u128::MAX - 7),
            3 => v.visit_i128(i128::MIN + 3),
            4 => v.visit_f32(0.3),
            5 => v.visit_f64(-5e-324),
            6 => v.visit_str(self.1),
            7 => v.visit_string(self.2.unwrap_or_default()),
            8 => v.visit_f32(f32::INFINITY),
            9 => v.visit_f64(f64::NEG_INFINITY),
            10 => v.visit_f64(f64::NAN),
            _ => v.visit_bool(true),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// writes a string into a buffer that exists already
struct Into_<'a>(&'a mut Fixed);
macro_rules! not_text {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), NoMem> { Err(NoMem(0)) })* };
}
impl serde::Serializer for Into_<'_> {
    type Ok = ();
    type Error = NoMem;
    type SerializeSeq = serde::ser::Impossible<(), NoMem>;
    type SerializeTuple = serde::ser::Impossible<(), NoMem>;
    type SerializeTupleStruct = serde::ser::Impossible<(), NoMem>;
    type SerializeTupleVariant = serde::ser::Impossible<(), NoMem>;
    type SerializeMap = serde::ser::Impossible<(), NoMem>;
    type SerializeStruct = serde::ser::Impossible<(), NoMem>;
    type SerializeStructVariant = serde::ser::Impossible<(), NoMem>;
    fn serialize_str(self, v: &str) -> Result<(), NoMem> {
        std::fmt::Write::write_str(self.0, v).map_err(|_| NoMem(0))
    }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, v: &T) -> Result<(), NoMem> {
        std::fmt::Write::write_fmt(self.0, format_args!("{}", v)).map_err(|_| NoMem(0))
    }
    not_text! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str }
    fn serialize_none(self) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_unit(self) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), NoMem> {
        Err(NoMem(0))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, NoMem> {
        Err(NoMem(0))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, NoMem> {
        Err(NoMem(0))
    }
}

/// the failing allocation is counted only inside the call under test
fn pause<T>(f: impl FnOnce() -> T) -> T {
    let k = FAIL.with(|c| c.replace(0));
    let r = f();
    FAIL.with(|c| c.set(k));
    r
}

fn other(n: usize, cc: &mut Consts) -> String {
    use astro_float_num::{FromExt, Radix, INF_NEG, NAN};
    use serde::{Deserialize, Serialize};
    use std::fmt::Write;
    let name = OTHER[n];
    let mut t = pause(|| Fixed(Vec::with_capacity(1 << 14), false));
    let third = pause(|| pat(3, 5, 7));
    let big = pause(|| pat(11, 5, -40));
    let num = |b: BigFloat| pause(|| if b.err() == Some(astro_float_num::Error::MemoryAllocation) { "refused".to_string() } else { idt(&b) });
    let ser = |t: &mut Fixed, b: &BigFloat| match b.serialize(Into_(t)) {
        Ok(()) => None,
        Err(e) => Some(pause(|| e.to_string())),
    };
    let de = |k: u8, s: &str| {
        let own = pause(|| Some(s.to_string()));
        match BigFloat::deserialize(One(k, s, own)) {
            Ok(b) => num(b),
            Err(e) => pause(|| e.to_string()),
        }
    };
    let done = |t: Fixed| pause(|| String::from_utf8(t.0.clone()).unwrap_or_default());
    match name {
        "random_normal 1" | "random_normal 9" => {
            pause(|| rand::rngs::script::set(&[1, 2, 3, u64::MAX, 5, 6, 7, 8, 9, 10]));
            let b = BigFloat::random_normal(if name.ends_with('1') { 64 } else { 576 }, -5, 5);
            rand::rngs::script::clear();
            num(b)
        }
        "Context::const_pi" | "Context::const_e" | "Context::const_ln2" | "Context::const_ln10" | "Context::clone" => {
            let own = pause(|| std::mem::replace(cc, Consts::new().expect("cache")));
            let mut c = astro_float_num::ctx::Context::new(192, RM::ToEven, own, -1000, 1000);
            let b = match name {
                "Context::const_pi" => num(c.const_pi()),
                "Context::const_e" => num(c.const_e()),
                "Context::const_ln2" => num(c.const_ln2()),
                "Context::const_ln10" => num(c.const_ln10()),
                _ => match c.clone() {
                    Ok(mut d) => pause(|| num(d.const_pi())),
                    Err(_) => pause(|| "refused".into()),
                },
            };
            pause(|| *cc = c.to_raw_parts().2);
            b
        }
        "serialize 1/3" | "serialize -Inf" | "serialize NaN" | "serialize 0" | "serialize 11 words" => {
            let b = pause(|| match name {
                "serialize 1/3" => third.clone(),
                "serialize -Inf" => INF_NEG.clone(),
                "serialize NaN" => NAN.clone(),
                "serialize 0" => BigFloat::new(64),
                _ => big.clone(),
            });
            match ser(&mut t, &b) {
                None => done(t),
                Some(e) => e,
            }
        }
        "deserialize u64" => de(0, ""),
        "deserialize i64" => de(1, ""),
        "deserialize u128" => de(2, ""),
        "deserialize i128" => de(3, ""),
        "deserialize f32" => de(4, ""),
        "deserialize f64" => de(5, ""),
        "deserialize str" => de(6, "1.25e-7"),
        "deserialize String" => de(7, "-1234567890123456789012345678901234567890"),
        "deserialize infinite f32" => de(8, ""),
        "deserialize infinite f64" => de(9, ""),
        "deserialize NaN f64" => de(10, ""),
        "deserialize invalid str" => de(6, "hello"),
        "deserialize bool" => de(11, ""),
        "Binary" | "Octal" | "Display" | "UpperHex" | "Octal Inf" | "Display of zero" | "Binary with a width" | "Debug" => {
            let _ = match name {
                "Binary" => write!(t, "{:b}", third),
                "Octal" => write!(t, "{:o}", third),
                "Display" => write!(t, "{}", big),
                "UpperHex" => write!(t, "{:X}", big),
                "Octal Inf" => write!(t, "{:o}", INF_NEG),
                "Display of zero" => write!(t, "{}", BigFloat::new(0)),
                "Debug" => write!(t, "{:?}", third),
                _ => write!(t, "{:20b}", third),
            };
            done(t)
        }
        "FromExt str" => num(BigFloat::from_ext("12345.678e-3", 256, RM::Up, cc)),
        "FromExt f64" => num(BigFloat::from_ext(0.1f64, 320, RM::Up, cc)),
        "FromExt u128" => num(BigFloat::from_ext(u128::MAX, 64, RM::ToEven, cc)),
        "FromExt subnormal f64" => num(BigFloat::from_ext(5e-324f64, 64, RM::ToEven, cc)),
        "Neg for reference" => num(-&big),
        "From f64" => num(BigFloat::from(-0.7f64)),
        "From i128" => num(BigFloat::from(i128::MIN)),
        "FromStr" | "FromStr invalid" => match name.ends_with("invalid").then_some("x1").unwrap_or("1e-30").parse::<BigFloat>() {
            Ok(b) => num(b),
            Err(e) => pause(|| format!("{:?}", e)),
        },
        _ => match (if name == "format Inf" { &INF_NEG } else { &NAN }).format(Radix::Oct, RM::None, cc) {
            Ok(s) => s,
            Err(e) => pause(|| format!("{:?}", e)),
        },
    }
}

pub fn c22(r: &Run) {
    *r.rule.lock().unwrap() = "Fault exploration of the real code: for every operation and argument of the table and for every age of the constants cache, the run is repeated with allocation 1, 2, 3, ... failing (exactly one per run) until a run finishes without reaching the failing allocation, so that every single allocation of the operation fails once. After each fault: the outcome is the correct result or a reported allocation failure, operands are unchanged, and the same call and six probes of the cache give the correct results. Each case runs in a child process, so that an abort is seen. A state is one (case, number of the failing allocation); a transition is one executed call after the fault.".into();
    r.assumptions.lock().unwrap().push("One failing allocation per run; the failure is a null pointer from the global allocator.".into());
    let first = cases(1);
    // first use of lazily initialized values: a new process for every case
    let firsts: Vec<usize> = {
        let mut seen = std::collections::HashSet::new();
        (0..first.len()).filter(|i| seen.insert(first[*i].op)).collect()
    };
    let fr = &first;
    let depth = r.t(40u64, 2000);
    isolated(
        r,
        "first-use",
        firsts.len() as u64 * depth,
        60,
        |i| format!("first call in a process: {} failing allocation {}", fr[firsts[(i / depth) as usize]].text(), i % depth + 1),
        |i, o| {
            let c = &fr[firsts[(i / depth) as usize]];
            let k = i % depth + 1;
            // a grandchild for a pristine process
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let mut cc = Consts::new().expect("cache");
                let (g, _) = with_failure(k, || c.run(&mut cc));
                let again = guard(|| c.run(&mut cc));
                let code = match (&g, &again) {
                    (Err(e), Err(_)) if e.contains("Constant ") => 7,
                    (Err(_), Err(_)) => 3,
                    (Err(_), Ok(_)) => 2,
                    (Ok(_), Err(_)) => 4,
                    (Ok(a), Ok(b)) => {
                        if is_mem_error(b) {
                            5
                        } else if is_mem_error(a) || ops::show(a) == ops::show(b) {
                            0
                        } else {
                            6
                        }
                    }
                };
                unsafe { libc::_exit(code) }
            }
            let mut st = 0;
            unsafe {
                libc::waitpid(pid, &mut st, 0);
            }
            let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 100 };
            let m = ["", "", "panics", "panics, and every later call panics", "a later call panics", "a later call reports an allocation failure", "the result is wrong", "a lazily initialized constant cannot be created, and every later call panics"];
            o.w.sub(if code == 0 { Ok(true) } else { Err(m.get(code as usize).copied().unwrap_or("the process ended").to_string()) }, || format!("first use of a process: {}", OPS[c.op].0));
        },
    );
    warm_statics();
    let cs = cases(r.t(0, 2));
    let cr = &cs;
    // the cache is new or used
    let sc: Vec<(usize, usize)> = (0..cs.len()).flat_map(|i| (0..if OPS[cs[i].op].1 & CC != 0 { 2 } else { 1 }).map(move |a| (i, a))).collect();
    let scr = &sc;
    isolated(
        r,
        "single-fault",
        sc.len() as u64,
        300,
        |i| format!("{} cache age {}", cr[scr[i as usize].0].text(), scr[i as usize].1),
        |i, o| {
            let c = &cr[scr[i as usize].0];
            let age = scr[i as usize].1;
            let want = {
                let mut cc = cache(age);
                ops::show(&c.run(&mut cc))
            };
            let probes: Vec<String> = {
                let mut cc = cache(0);
                (0..PROBE).map(|j| idt(&probe(j, &mut cc))).collect()
            };
            let (ix, iy) = (idt(&c.x), idt(&c.y));
            let uses_cc = OPS[c.op].1 & CC != 0;
            let mut k = 1;
            let mut cc = cache(age);
            loop {
                o.step(k);
                if uses_cc && k > 1 {
                    cc = cache(age);
                }
                let (g, hit) = with_failure(k, || c.run(&mut cc));
                let ctx = || format!("failing allocation {}", k);
                match g {
                    Err(e) => o.w.sub(Err(e), ctx),
                    Ok(res) => {
                        let mem = is_mem_error(&res);
                        let ok = if mem { hit } else { ops::show(&res) == want };
                        o.w.sub(
                            if ok { Ok(mem) } else { Err(format!("got {} want {} or an allocation error", ops::show(&res), want)) },
                            ctx,
                        );
                    }
                }
                if idt(&c.x) != ix || idt(&c.y) != iy {
                    o.w.sub(Err("an operand has changed".into()), ctx);
                }
                let g = guard(|| ops::show(&c.run(&mut cc)));
                o.w.sub(if g.as_ref() == Ok(&want) { Ok(true) } else { Err(format!("the next call gives {:?} want {}", g, want)) }, ctx);
                if uses_cc {
                    for j in 0..PROBE {
                        let g = guard(|| idt(&probe(j, &mut cc)));
                        o.w.sub(if g.as_ref() == Ok(&probes[j]) { Ok(true) } else { Err(format!("probe {} of the cache gives {:?} want {}", j, g, probes[j])) }, ctx);
                    }
                }
                if !hit || k > 200_000 {
                    break;
                }
                k += 1;
            }
        },
    );
    // calls outside the table of operations
    isolated(
        r,
        "other-calls",
        OTHER.len() as u64 * 2,
        60,
        |i| format!("{} {}", OTHER[i as usize / 2], if i % 2 == 0 { "new cache" } else { "used cache" }),
        |i, o| {
            let n = i as usize / 2;
            let age = i as usize % 2;
            let want = other(n, &mut cache(age));
            let mut k = 1;
            loop {
                o.step(k);
                let mut cc = cache(age);
                let (g, hit) = with_failure(k, || other(n, &mut cc));
                let ctx = || format!("failing allocation {}", k);
                let refused = |s: &str| (s.ends_with("Err") && !OTHER[n].starts_with("serialize")) || s.contains("MemoryAllocation") || s.contains("memory allocation failure") || s == "refused";
                match &g {
                    Err(e) => o.w.sub(Err(e.clone()), ctx),
                    Ok(g) => {
                        let mem = hit && *g != want && refused(g);
                        o.w.sub(if *g == want || mem { Ok(mem) } else { Err(format!("got {} want {} or a report of the failure", g, want)) }, ctx)
                    }
                }
                let again = guard(|| other(n, &mut cc).clone());
                o.w.sub(if again.as_ref() == Ok(&want) { Ok(true) } else { Err(format!("the next call gives {:?} want {}", again, want)) }, ctx);
                for j in 0..PROBE - 1 {
                    let g = guard(|| idt(&probe(j, &mut cc)) == idt(&probe(j, &mut cache(0))));
                    o.w.sub(if g == Ok(true) { Ok(true) } else { Err(format!("probe {} of the cache gives {:?}", j, g)) }, ctx);
                }
                if !hit || k > 20_000 {
                    break;
                }
                k += 1;
            }
        },
    );
    // construction of the cache itself
    isolated(
        r,
        "cache-construction",
        400,
        60,
        |i| format!("Consts::new and Context with failing allocation {}", i + 1),
        |i, o| {
            let (g, _) = with_failure(i + 1, || Consts::new().is_ok());
            o.w.sub(g.map(|ok| !ok), || "Consts::new".into());
            let ctx = astro_float_num::ctx::Context::new(64, RM::ToEven, cache(0), -100, 100);
            let (g, hit) = with_failure(i + 1, || ctx.clone().is_ok());
            o.w.sub(g.and_then(|ok| if ok || hit { Ok(!ok) } else { Err("clone failed without a fault".into()) }), || "Context::clone".into());
        },
    );
    let st = r.stats.lock().unwrap();
    let (s, t): (u64, u64) = (st.iter().map(|s| s.nontriv).sum(), st.iter().map(|s| s.evals).sum());
    let mut ex = r.extra.lock().unwrap();
    ex.insert("states".into(), s.into());
    ex.insert("transitions".into(), t.into());
    ex.insert("traces_validated_against_impl".into(), t.into());
}

pub fn c23(r: &Run) {
    *r.rule.lock().unwrap() = "Every operation and argument of the table is executed with fresh and released memory overwritten by each of the patterns (zeros, ones, lowest bit, highest bit, alternating, address-dependent), first in a new cache, then repeated with the used cache, after other operations and on another thread; all results are compared bit for bit with the run on zero-filled memory.".into();
    warm_statics();
    let cs = cases(r.t(1, 2));
    let pats: Vec<(u8, u64)> = vec![(1, u64::MAX), (1, 1), (1, 1 << 63), (1, 0x5555_5555_5555_5555), (2, 77), (1, 0x9E37_79B9_7F4A_7C15), (1, 2), (2, 1234567)];
    let np = r.t(5, pats.len());
    let cr = &cs;
    r.space(
        "fill",
        &[cs.len(), np],
        |i| format!("{} memory filled with {:x} (mode {})", cr[i[0]].text(), pats[i[1]].1, pats[i[1]].0),
        |i, w| {
            let c = &cr[i[0]];
            let run = |mode: u8, pat: u64| {
                with_fill(mode, pat, || {
                    let mut cc = Consts::new().expect("cache");
                    ops::show(&c.run(&mut cc))
                })
            };
            let want = run(1, 0);
            let (mode, pat) = pats[i[1]];
            let got = run(mode, pat);
            w.sub(if got == want { Ok(true) } else { Err(format!("got {} want {}", got, want)) }, || "fresh memory".into());
            let got = ops::show(&c.run(&mut w.cc));
            w.sub(if got == want { Ok(true) } else { Err(format!("got {} want {}", got, want)) }, || "used cache".into());
        },
    );
    r.space(
        "after-other",
        &[cs.len()],
        |i| cr[i[0]].text(),
        |i, w| {
            let c = &cr[i[0]];
            let want = ops::show(&c.run(&mut w.cc));
            // neighbours of other kinds in between, then again, and in another thread
            for j in [1usize, 37, 101, 211] {
                let o = &cr[(i[0] + j) % cr.len()];
                if o.x.mantissa_max_bit_len().unwrap_or(0) < 5000 {
                    ops::show(&o.run(&mut w.cc));
                }
            }
            let got = ops::show(&c.run(&mut w.cc));
            w.sub(if got == want { Ok(true) } else { Err(format!("got {} want {}", got, want)) }, || "repeated after other operations".into());
            let got = std::thread::scope(|s| s.spawn(|| ops::show(&c.run(&mut Consts::new().unwrap()))).join());
            let got = got.unwrap_or_else(|_| "panic".into());
            w.sub(if got == want { Ok(true) } else { Err(format!("got {} want {}", got, want)) }, || "on another thread".into());
        },
    );
    // operands of every size class: both sides of each algorithm switch, patterns that force corrections
    let sizes: Vec<usize> = r.t(
        vec![1, 2, 3, 5, 8, 16, 31, 33, 40, 64, 70, 72, 101, 140, 150, 160, 219, 221, 300, 330],
        (1..=40).chain([50, 64, 69, 70, 71, 72, 80, 101, 120, 139, 140, 141, 142, 150, 159, 160, 161, 200, 219, 220, 221, 222, 300, 330, 450, 662]).collect(),
    );
    let nums: Vec<BigFloat> = sizes.iter().flat_map(|n| shapes(*n)).collect();
    let pats3: [(u8, u64); 3] = [(1, u64::MAX), (2, 77), (1, 1 << 63)];
    let check = |c: &Case, fresh: bool, w: &mut W| {
        let np = if r.quick() { 2 } else { 3 };
        let run = |mode: u8, pat: u64, cc: &mut Consts| {
            with_fill(mode, pat, || {
                if fresh {
                    ops::show(&c.run(&mut Consts::new().expect("cache")))
                } else {
                    ops::show(&c.run(cc))
                }
            })
        };
        let want = run(1, 0, &mut w.cc);
        for (mode, pat) in &pats3[..np] {
            let got = run(*mode, *pat, &mut w.cc);
            w.sub(if got == want { Ok(true) } else { Err(format!("got {:.300} want {:.300}", got, want)) }, || format!("{} memory filled with {:x} (mode {})", c.text(), pat, mode));
        }
    };
    let nr = &nums;
    let ops2 = ["mul", "div", "rem", "mul_full_prec", "add", "sub"];
    r.space(
        "sizes-binary",
        &[nums.len(), nums.len()],
        |i| format!("x={} y={}", crate::oracle::show(&nr[i[0]]), crate::oracle::show(&nr[i[1]])),
        |i, w| {
            let (x, y) = (&nr[i[0]], &nr[i[1]]);
            let p = x.mantissa_max_bit_len().unwrap().max(y.mantissa_max_bit_len().unwrap());
            for o in ops2 {
                check(&Case::new(o, x, y, p, RM::ToEven, 0, ""), false, w);
            }
        },
    );
    let ops1 = ["sqrt", "cbrt", "reciprocal", "set_precision", "format", "convert_to_radix", "display", "powi", "fract", "round"];
    let ps: Vec<usize> = [1usize, 2, 5, 17, 33, 70, 150, 221].iter().map(|n| n * 64).collect();
    r.space(
        "sizes-unary",
        &[nums.len(), ops1.len(), ps.len()],
        |i| format!("{} x={} p={}", ops1[i[1]], crate::oracle::show(&nr[i[0]]), ps[i[2]]),
        |i, w| {
            let n = match ops1[i[1]] {
                "format" | "convert_to_radix" => [0u64, 1, 2, 3][i[2] % 4],
                "round" => ps[i[2]] as u64,
                _ => 7,
            };
            if ops1[i[1]] == "powi" && nr[i[0]].mantissa_max_bit_len().unwrap() > 33 * 64 {
                return;
            }
            check(&Case::new(ops1[i[1]], &nr[i[0]], &nr[i[0]], ps[i[2]], RM::ToEven, n, ""), false, w);
        },
    );
    let fns = ["exp", "ln", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "pow", "log", "pi", "e", "ln_2", "ln_10"];
    let args: Vec<BigFloat> = [(3i64, 2i64), (-5, 3), (7, 1), (1, 40), (12345, 4)].iter().map(|(n, s)| encode(&Dy { neg: *n < 0, m: rug::Integer::from(n.abs()), e: -s }, 192)).collect();
    let fps: Vec<usize> = r.t(vec![64, 192, 640, 1600, 3200], (1..=40).map(|n| n * 64).chain([3200, 6400]).collect());
    let ar = &args;
    r.space(
        "sizes-functions",
        &[fns.len(), args.len(), fps.len()],
        |i| format!("{} x={} p={}", fns[i[0]], crate::oracle::show(&ar[i[1]]), fps[i[2]]),
        |i, w| {
            check(&Case::new(fns[i[0]], &ar[i[1]], &ar[(i[1] + 2) % ar.len()], fps[i[2]], RM::ToEven, 0, ""), true, w);
        },
    );
    let texts: Vec<String> = [1usize, 3, 10, 19, 20, 21, 39, 60, 100, 200, 500, 1000, 3000]
        .iter()
        .flat_map(|n| {
            let d: String = "9".repeat(*n);
            let e: String = "3141592653589793238".chars().cycle().take(*n).collect();
            let z = format!("1{}1", "0".repeat(*n));
            [d.clone(), e.clone(), z.clone(), format!("0.{}e-7", e), format!("{}.{}", d, z), format!("{}e{}", e, n)]
        })
        .collect();
    let tr = &texts;
    r.space(
        "sizes-parse",
        &[texts.len(), 4],
        |i| format!("{:.60}..({}) p={}", tr[i[0]], tr[i[0]].len(), [64, 128, 640, 12800][i[1]]),
        |i, w| {
            let c = Case::new("parse", &nr[0], &nr[0], [64, 128, 640, 12800][i[1]], RM::ToEven, 0, &tr[i[0]]);
            check(&c, true, w);
        },
    );
    let huge: Vec<BigFloat> = r.t(vec![1500, 5500], vec![1500, 5500, 7000]).into_iter().flat_map(shapes).collect();
    let hr = &huge;
    r.space(
        "sizes-fft",
        &[huge.len(), huge.len()],
        |i| format!("x={:.80} y={:.80}", crate::oracle::show(&hr[i[0]]), crate::oracle::show(&hr[i[1]])),
        |i, w| {
            check(&Case::new("mul_full_prec", &hr[i[0]], &hr[i[1]], 64, RM::ToEven, 0, ""), false, w);
        },
    );
}

/// numbers of n words: dense, all ones, two bits, a high word of zeros but for its top bit, a low half of zeros
fn shapes(n: usize) -> Vec<BigFloat> {
    let mut v: Vec<Vec<u64>> = vec![];
    let mut d: Vec<u64> = (0..n as u64).map(|i| (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31) ^ i).collect();
    d[n - 1] |= 1 << 63;
    v.push(d.clone());
    v.push(vec![u64::MAX; n]);
    let mut t = vec![0u64; n];
    t[0] |= 1;
    t[n - 1] |= 1 << 63;
    v.push(t);
    let mut t = vec![u64::MAX; n];
    t[n - 1] = 1 << 63;
    v.push(t);
    for w in d[..n / 2].iter_mut() {
        *w = 0;
    }
    v.push(d);
    v.iter().enumerate().map(|(k, m)| mk(m, false, (3 * k) as astro_float_num::Exponent)).collect()
}
