//! Operations x arguments, evaluated alike under every configuration of the library: C32.
//! Compiled into this explorer (default configuration) and into mcn (the others).
use crate::ops::{self, *};
use astro_float_num::{BigFloat, Consts, Exponent, RoundingMode as RM, Sign, EXPONENT_MAX, EXPONENT_MIN};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const RMS: [RM; 7] = [RM::ToEven, RM::None, RM::Up, RM::Down, RM::ToZero, RM::FromZero, RM::ToOdd];

pub struct Space {
    quick: bool,
    xs: Vec<BigFloat>,
    ps: Vec<usize>,
    ss: Vec<String>,
    /// operation and first argument
    blocks: Vec<(usize, usize)>,
}

fn counts(name: &str) -> Vec<u64> {
    match name {
        "format" | "convert_to_radix" | "parse" => vec![0, 1, 2, 3],
        "set_sign" | "set_inexact" => vec![0, 1],
        "set_exponent" | "from_words" => vec![0, 1, EXPONENT_MAX as i64 as u64, EXPONENT_MIN as i64 as u64, (EXPONENT_MIN + 1) as i64 as u64, (EXPONENT_MIN + 63) as i64 as u64],
        "from_f64" | "from_prims" | "from_ext" => vec![0, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 1, u64::MAX, f64::MAX.to_bits(), 0.1f64.to_bits(), 3],
        "from_f32" => vec![0, 1 << 31, f32::NAN.to_bits() as u64, f32::INFINITY.to_bits() as u64, 1, u32::MAX as u64, f32::MAX.to_bits() as u64, 0.1f32.to_bits() as u64],
        "from_word" | "from_ints" => vec![0, 1, 127, 128, 255, 1 << 31, 1 << 63, u64::MAX],
        "from_raw_parts" => vec![0, 1, u64::MAX, 64, (-64i64) as u64],
        "convert_from_radix" => {
            let mut v = vec![];
            for e in [0i64, 1, -1, 5, 40, -40, 1000, -1000] {
                for r in 0..4u64 {
                    v.push(((e << 3) as u64) | r | if e == 5 { 4 } else { 0 });
                }
            }
            v
        }
        _ => vec![0, 1, 2, 3, 5, 17, 63, 64, 65, 128, 1000],
    }
}

/// keep the exploration away from numbers of enormous length
fn skip(name: &str, x: &BigFloat, y: &BigFloat, n: u64) -> bool {
    let e = |b: &BigFloat| if b.is_zero() { 0 } else { b.exponent().unwrap_or(0) as i64 };
    let (a, b) = (e(x), e(y));
    match name {
        "sin" | "cos" | "tan" => a > 3000,
        "add_full_prec" | "sub_full_prec" | "rem" => (a - b).abs() > 5000,
        "powi" => n > 70 && a.abs() > 5000,
        _ => false,
    }
}

impl Space {
    pub fn new(quick: bool) -> Self {
        let top = 1u64 << 63;
        let w = |m: &[u64], s: Sign, e: Exponent| BigFloat::from_words(m, s, e);
        let (p, n) = (Sign::Pos, Sign::Neg);
        let raw = |m: &[u64], bits: usize, s: Sign| BigFloat::from_raw_parts(m, bits, s, EXPONENT_MIN, false);
        let mut xs = vec![
            BigFloat::new(64),
            BigFloat::new(128).neg(),
            w(&[top], p, 1),
            w(&[top], n, 1),
            w(&[top], p, 2),
            w(&[0xc000_0000_0000_0000], p, 2),
            w(&[0xa000_0000_0000_0000], n, 4),
            w(&[0xcccc_cccc_cccc_cccc], p, -3),
            w(&[u64::MAX], p, 0),
            w(&[1, top], p, 1),
            w(&[u64::MAX, u64::MAX], n, 0),
            w(&[0x1234_5678_9abc_def0, 0xfedc_ba98_7654_3210], p, 7),
            w(&[0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344, 0xc90f_daa2_2168_c234], p, 2),
            w(&[7, 0, 0xb504_f333_f9de_6484], n, -20),
            w(&[1, 0, 0, top], p, 64),
            w(&[3, 5, 7, 11, 0x9e37_79b9_7f4a_7c15], p, 129),
            BigFloat::max_value(64),
            BigFloat::min_value(128),
            BigFloat::min_positive(64),
            BigFloat::min_positive(128).neg(),
            BigFloat::min_positive_normal(64),
            raw(&[u64::MAX, 5], 67, p),
            w(&[0x8888_8888_8888_8888], n, EXPONENT_MAX - 1),
            w(&[0x9999_9999_9999_9999, 0xe666_6666_6666_6666], p, EXPONENT_MIN + 66),
            astro_float_num::INF_POS,
            astro_float_num::INF_NEG,
            astro_float_num::NAN,
        ];
        let mut ix = w(&[0xaaaa_aaaa_aaaa_aaab], p, 3);
        ix.set_inexact(true);
        xs.push(ix);
        {
            for e in [-300, -64, -2, 0, 1, 3, 10, 65, 200, 2000] {
                for k in 1..=if quick { 3 } else { 9usize } {
                    let m: Vec<u64> = (0..k as u64).map(|i| (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | top).collect();
                    xs.push(w(&m, if k % 2 == 0 { n } else { p }, e));
                }
            }
        }
        let ss: Vec<String> = [
            "", "0", "-0.0", "1", "-1.5", "3.14159265358979323846264338327950288", "1e400", "-1e-400", "0.1", "123456789012345678901234567890", "1e646456993", "1e-646457000", "ff_e10", "abc.def", "1010.0101e-11", "777e7", "inf", "-Inf", "nan", "1e", "e1", ".5", "5.",
            "99999999999999999999999999999999999999999999999999", "0.0000000000000000000000000000000000000000000000001",
        ]
        .iter()
        .map(|s| s.to_string())
        .chain([7usize, 40, 100, 400, 500].iter().map(|&k| "9182736450".repeat(k / 10 + 1)[..k].to_string()))
        .collect();
        let ps = if quick { vec![0, 1, 64, 65, 128, 192, 320] } else { vec![0, 1, 63, 64, 65, 127, 128, 129, 192, 256, 320, 448, 640, 1024] };
        let mut blocks = vec![];
        for (o, (name, f)) in OPS.iter().enumerate() {
            let _ = name;
            for i in 0..if f & X != 0 { xs.len() } else if f & S != 0 { ss.len() } else { 1 } {
                blocks.push((o, i));
            }
        }
        Space { quick, xs, ps, ss, blocks }
    }

    pub fn len(&self) -> usize {
        self.blocks.len()
    }

    pub fn name(&self, b: usize) -> String {
        let (o, i) = self.blocks[b];
        format!("{}#{}", OPS[o].0, i)
    }

    /// every case of one block
    pub fn run(&self, b: usize, out: &mut dyn FnMut(&dyn Fn() -> String, &str)) -> u64 {
        let (o, i) = self.blocks[b];
        let (name, f) = OPS[o];
        let mut cc = Consts::new().expect("cache");
        let zero = BigFloat::new(64);
        let x = if f & X != 0 { &self.xs[i] } else { &zero };
        let s = if f & S != 0 && f & X == 0 { &self.ss[i][..] } else { "" };
        let one = [zero.clone()];
        let ys: &[BigFloat] = if f & Y != 0 { &self.xs } else { &one };
        let zs: &[BigFloat] = if f & Z != 0 { &self.xs } else { &one };
        let step = if self.quick && name == "pow" { 2 } else { 1 };
        let mut k = 0;
        for (j, y) in ys.iter().enumerate() {
            for (l, z) in zs.iter().enumerate() {
                for &p in if f & P != 0 { &self.ps[..] } else { &self.ps[..1] } {
                    for &rm in if f & R != 0 { &RMS[..] } else { &RMS[..1] }.iter().step_by(step) {
                        for &n in &if f & N != 0 { counts(name) } else { vec![0] } {
                            if skip(name, x, y, n) {
                                continue;
                            }
                            let a = A { x, y, z, p, rm, n, s };
                            let t = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops::apply(o, &a, &mut cc))) {
                                Ok(r) => ops::show(&r),
                                Err(_) => {
                                    cc = Consts::new().expect("cache");
                                    "panic".into()
                                }
                            };
                            k += 1;
                            out(&|| format!("{} x#{} y#{} z#{} p={} {:?} n={} {:?}", name, i, j, l, p, rm, n, s), &t);
                        }
                    }
                }
            }
        }
        k
    }

    pub fn hash(&self, b: usize) -> (u64, u64) {
        let mut h = 0xcbf29ce484222325u64;
        let n = self.run(b, &mut |_, t| {
            for c in t.bytes() {
                h = (h ^ c as u64).wrapping_mul(0x100000001b3);
            }
            h = h.wrapping_mul(0x100000001b3).wrapping_add(1);
        });
        (h, n)
    }

    #[allow(dead_code)]
    pub fn hashes(&self) -> Vec<u64> {
        let next = AtomicUsize::new(0);
        let nt = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(1);
        let mut v = vec![0; self.len()];
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt)
                .map(|_| {
                    sc.spawn(|| {
                        let mut r = vec![];
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= self.len() {
                                return r;
                            }
                            r.push((i, self.hash(i).0));
                        }
                    })
                })
                .collect();
            for h in hs {
                for (i, x) in h.join().unwrap() {
                    v[i] = x;
                }
            }
        });
        v
    }
}
