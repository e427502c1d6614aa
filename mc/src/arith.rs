//! Arithmetic: add, sub, mul, div, rem, roots, full-precision variants.
use crate::alpha::*;
use crate::core::*;
use crate::oracle::*;
use astro_float_num::{BigFloat, Exponent, RoundingMode as RM, Word};
use rug::ops::DivRounding;
use rug::Integer;

pub const PS: [usize; 5] = [64, 128, 192, 256, 320];

fn n(neg: bool, m: &Integer) -> Integer {
    if neg {
        Integer::from(-m)
    } else {
        m.clone()
    }
}

/// signs x op: all eight combinations of (negative a, negative b, subtract)
fn combos() -> [(bool, bool, bool); 8] {
    let mut v = [(false, false, false); 8];
    for (i, x) in v.iter_mut().enumerate() {
        *x = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
    }
    v
}

fn with_sign(b: &BigFloat, neg: bool) -> BigFloat {
    let mut r = b.clone();
    if neg {
        r.inv_sign();
    }
    r
}

/// exact a +- b checked for every sign combination, precision and mode
pub fn addsub_case(a: &BigFloat, b: &BigFloat, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let (da, db) = (dy(a), dy(b));
    let fl = a.inexact() || b.inexact();
    let e = if da.is_zero() {
        db.e
    } else if db.is_zero() {
        da.e
    } else {
        da.e.min(db.e)
    };
    let sh = |d: &Dy| if d.is_zero() { Integer::new() } else { Integer::from(&d.m << (d.e - e) as u32) };
    let (ia, ib) = (sh(&da), sh(&db));
    let sum = Integer::from(&ia + &ib);
    let dif = Integer::from(&ia - &ib);
    let adif = dif.clone().abs();
    let aa = [a.clone(), with_sign(a, true)];
    let bb = [b.clone(), with_sign(b, true)];
    for (ci, (na, nb, sub)) in combos().iter().enumerate() {
        let (na, nb, sub) = (*na, *nb, *sub);
        w.sub[0] = ci;
        // effective b sign
        let eb = nb != sub;
        let (neg, m) = if na == eb { (na, &sum) } else { ((dif < 0) != na, &adif) };
        for (pi, &p) in ps.iter().enumerate() {
            w.sub[1] = pi;
            for (ri, &rm) in rms.iter().enumerate() {
                w.sub[2] = ri;
                let r = if sub {
                    aa[na as usize].sub(&bb[nb as usize], p, rm)
                } else {
                    aa[na as usize].add(&bb[nb as usize], p, rm)
                };
                let c = check(&r, neg, m, e, false, rp(p), rm, fl, cmp);
                w.sub(c, || {
                    format!("{}({}{}, {}{}) p={} {:?}", if sub { "sub" } else { "add" }, if na { "-" } else { "" }, show(a), if nb { "-" } else { "" }, show(b), p, rm)
                });
            }
        }
    }
}

pub fn addsub_space(r: &Run, name: &str, ma: &[BigFloat], mb: &[BigFloat], ds: &[i64], ps: &[usize], rms: &[RM], e0: Exponent, cmp: Cmp) {
    r.space(
        name,
        &[ma.len(), mb.len(), ds.len()],
        |i| format!("a={} b={} de={}", show(&ma[i[0]]), show(&mb[i[1]]), ds[i[2]]),
        |i, w| {
            let a = with_exp(&ma[i[0]], e0);
            let b = with_exp(&mb[i[1]], (e0 as i64 - ds[i[2]]) as Exponent);
            addsub_case(&a, &b, ps, rms, cmp, w);
        },
    );
}

/// exponents of every magnitude, both ends of the range included
pub fn all_exps() -> Vec<i64> {
    let mut v = vec![0i64];
    for k in 0..31 {
        for d in [-1i64, 0, 1, 2] {
            v.push((1i64 << k) + d);
            v.push(-(1i64 << k) - d);
        }
    }
    for d in [0i64, 1, 2, 3, 62, 63, 64, 65, 128, 200] {
        v.push(EMAX - d);
        v.push(EMIN + d);
    }
    v.push(3 << 29);
    v.push(-(3 << 29));
    v.retain(|e| (EMIN..=EMAX).contains(e));
    v.sort();
    v.dedup();
    v
}

/// a few mantissas with exponents of every magnitude, and subnormal numbers
pub fn all_exps_nums(ms: &[Vec<Word>]) -> Vec<BigFloat> {
    let mut v = vec![];
    for e in all_exps() {
        for m in ms {
            v.push(mk(m, false, e as Exponent));
        }
    }
    for m in [vec![1], vec![3], vec![MSB >> 1], vec![MAX >> 7], vec![0, 1], vec![MAX, MAX >> 1], vec![1, 0, 5]] {
        v.push(mk(&m, false, EMIN as Exponent));
    }
    v
}

pub fn c01(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one add/sub call compared with the exact sum rounded once; all (mantissa pair, exponent difference, signs, op, precision, mode) of the listed alphabets; nontrivial = the exact sum does not fit the precision".into();
    let m = nums(&r.t(mants(14, (7, 9), (4, 4, 4), (2, 3, 2, 2)), mants(14, (12, 13), (8, 7, 6), (5, 4, 4, 4))), 0);
    let m2 = nums(&r.t(mants(8, (4, 6), (3, 3, 3), (0, 0, 0, 0)), mants(14, (8, 10), (5, 5, 5), (3, 3, 3, 3))), 0);
    let ds = dexps(r.t(6, 7), true);
    addsub_space(r, "addsub", &m, &m2, &ds, &PS, &RMS, 5, VALUE);
    // smaller mantissas, negative difference side and every difference 0..400
    let s = nums(&mants(6, (3, 4), (2, 2, 2), (0, 0, 0, 0)), 0);
    let all: Vec<i64> = (-r.t(330, 700)..=r.t(330, 700)).collect();
    addsub_space(r, "addsub-all-shifts", &s, &s, &all, &[64, 128, 192], &RMS, -1000, VALUE);
    // huge differences
    let s1 = nums(&mants(5, (3, 3), (2, 2, 2), (0, 0, 0, 0)), 0);
    let huge: Vec<i64> = vec![1000, 100_000, 10_000_019, -1000, -77_777];
    addsub_space(r, "addsub-far", &s1, &s1, &huge, &[64, 128, 192, 256], &RMS, 7, VALUE);
    // neighbours: b = a +- k ulp with different lengths (massive cancellation)
    let base = nums(&r.t(mants(8, (5, 6), (4, 4, 4), (2, 3, 3, 3)), mants(14, (10, 12), (7, 7, 7), (4, 4, 4, 4))), 0);
    let deltas: Vec<(i64, i64)> = {
        let mut v = vec![];
        for k in [1i64, 2, 3, 5, -1, -2, -3, 7, -8] {
            for sh in [0i64, 1, 31, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255] {
                v.push((k, sh));
            }
        }
        v
    };
    r.space(
        "cancellation",
        &[base.len(), deltas.len(), 3],
        |i| format!("a={} delta={:?} extra={}", show(&base[i[0]]), deltas[i[1]], i[2]),
        |i, w| {
            let a = with_exp(&base[i[0]], 40);
            let d = dy(&a);
            let (k, sh) = deltas[i[1]];
            let len = a.mantissa_max_bit_len().unwrap() as i64 + 64 * i[2] as i64;
            let mm = (d.m.clone() << (64 * i[2] as u32)) + (Integer::from(k) << sh as u32);
            if mm <= 0 || mm.significant_bits() as i64 > len {
                return;
            }
            let b = encode(&Dy::new(false, mm, d.e - 64 * i[2] as i64), len as usize);
            addsub_case(&a, &b, &PS[..4], &RMS, VALUE, w);
        },
    );
    // exponents of every magnitude
    let xe = all_exps();
    let xm = [vec![MSB], vec![MAX], vec![1, MSB], vec![MAX, 1 << 5, MAX]];
    let xd = [0i64, 1, 2, 62, 63, 64, 65, 127, 128, 129, 300];
    r.space(
        "addsub-exponents",
        &[xe.len(), xd.len(), xm.len(), xm.len()],
        |i| format!("e={} de={} a={:x?} b={:x?}", xe[i[0]], xd[i[1]], xm[i[2]], xm[i[3]]),
        |i, w| {
            let a = mk(&xm[i[2]], false, xe[i[0]] as Exponent);
            let e = xe[i[0]] - xd[i[1]];
            let b = if e < EMIN { mk(&[(MSB >> 1) | 5], false, EMIN as Exponent) } else { mk(&xm[i[3]], false, e as Exponent) };
            addsub_case(&a, &b, &[64, 128], &RMS, VALUE, w);
            addsub_case(&b, &a, &[64, 192], &[RM::ToEven, RM::Down, RM::ToZero], VALUE, w);
        },
    );
    // zero operands
    let z: Vec<BigFloat> = [64usize, 128, 256].iter().map(|&p| BigFloat::new(p)).collect();
    r.space(
        "zero-operand",
        &[z.len(), m.len(), 2],
        |i| format!("zero p={:?} other={}", z[i[0]].mantissa_max_bit_len(), show(&m[i[1]])),
        |i, w| {
            if i[2] == 0 {
                addsub_case(&z[i[0]], &m[i[1]], &PS, &RMS, VALUE, w)
            } else {
                addsub_case(&m[i[1]], &z[i[0]], &PS, &RMS, VALUE, w)
            }
        },
    );
    // long operands: carries across many words
    let lens: Vec<usize> = r.t(vec![1, 2, 5, 8, 9, 16, 33], vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65]);
    let ld: Vec<i64> = {
        let mut v = vec![];
        for k in [0i64, 1, 2, 4, 7, 8, 9, 15, 16, 17, 32, 33, 40] {
            for o in [-1, 0, 1, 2] {
                if k * 64 + o >= 0 {
                    v.push(k * 64 + o);
                    v.push(-(k * 64 + o));
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "long",
        &[lens.len(), lens.len(), NKIND, NKIND, ld.len()],
        |i| format!("la={} lb={} ka={} kb={} de={}", lens[i[0]], lens[i[1]], i[2], i[3], ld[i[4]]),
        |i, w| {
            let a = mk(&pattern(i[2], lens[i[0]]), false, 0);
            let b = mk(&pattern(i[3], lens[i[1]]), false, (-ld[i[4]]) as Exponent);
            let p1 = lens[i[0]] * 64;
            addsub_case(&a, &b, &[64, p1, p1 + 64], &[RM::ToEven, RM::Up], VALUE, w);
        },
    );
}

pub fn mul_case(a: &BigFloat, b: &BigFloat, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let d = dy(a).mul(&dy(b));
    let fl = a.inexact() || b.inexact();
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            let x = a.mul(b, p, rm);
            let c = check(&x, d.neg, &d.m, d.e, false, rp(p), rm, fl, cmp);
            w.sub(c, || format!("mul({}, {}) p={} {:?}", show(a), show(b), p, rm));
        }
    }
}

pub const BIGS_Q: [usize; 44] = [
    1, 2, 3, 16, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 70, 71, 72, 96, 97, 99, 128, 129, 140, 141, 142, 143, 160, 192, 219, 220,
    221, 222, 223, 224, 230, 256, 257, 300, 333, 441, 442, 512, 663,
];

pub fn mul_small(r: &Run, name: &str, cmp: Cmp, ma: &[BigFloat], mb: &[BigFloat], ps: &[usize]) {
    r.space(
        name,
        &[ma.len(), mb.len(), 4],
        |i| format!("a={} b={} signs={}", show(&ma[i[0]]), show(&mb[i[1]]), i[2]),
        |i, w| {
            let a = with_sign(&ma[i[0]], i[2] & 1 != 0);
            let b = with_sign(&mb[i[1]], i[2] & 2 != 0);
            mul_case(&a, &b, ps, &RMS, cmp, w);
        },
    );
}

pub fn c02(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one mul call compared with the exact product rounded once; nontrivial = the exact product does not fit the precision".into();
    let m = nums(&r.t(mants(14, (10, 12), (6, 6, 6), (4, 4, 3, 3)), mants(14, (14, 14), (9, 9, 9), (6, 6, 5, 5))), 3);
    let m2 = nums(&r.t(mants(14, (10, 11), (5, 5, 5), (3, 3, 3, 3)), mants(14, (14, 14), (8, 8, 7), (5, 5, 4, 4))), -70);
    mul_small(r, "mul", VALUE, &m, &m2, &PS);
    // exponents of every magnitude
    let xn = all_exps_nums(&r.t(vec![vec![MAX], vec![5, MIX | MSB]], vec![vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]));
    r.space(
        "mul-exponents",
        &[xn.len(), xn.len()],
        |i| format!("a={} b={}", show(&xn[i[0]]), show(&xn[i[1]])),
        |i, w| {
            let a = with_sign(&xn[i[0]], (i[0] + i[1]) % 3 == 0);
            mul_case(&a, &xn[i[1]], &[64, 128], &RMS6, VALUE, w);
        },
    );
    // products next to a rounding boundary: b = ceil(target / a)
    let tops = &TOPS[..r.t(8, 14)];
    let base = nums(&r.t(mants(14, (6, 8), (3, 3, 3), (0, 0, 0, 0)), mants(14, (12, 12), (6, 6, 6), (3, 3, 3, 3))), 0);
    r.space(
        "mul-near-boundary",
        &[base.len(), tops.len(), 12, 3],
        |i| format!("a={} top={:x} low={} plen={}", show(&base[i[0]]), tops[i[1]], i[2], i[3] + 1),
        |i, w| {
            let a = &base[i[0]];
            let da = dy(a);
            let pl = i[3] + 1; // precision in words
            // target: pl words, then a boundary word (MSB tie, 0, MAX..)
            let bw = [MSB, 0, MAX, MSB - 1, MSB + 1, 1][i[2] % 6];
            let mut t = vec![MAX, bw];
            for k in 0..pl {
                t.push(if k + 1 == pl { tops[i[1]] } else if i[2] < 6 { MAX } else { 0 });
            }
            let t = from_words(&t);
            let q0 = Integer::from(&t / &da.m);
            for dq in -1i32..=1 {
                let q = Integer::from(&q0 + dq);
                if q <= 0 {
                    continue;
                }
                let bl = rp(q.significant_bits() as usize);
                let b = encode(&Dy::new(false, q, 0), bl);
                mul_case(a, &b, &[64, pl * 64, pl * 64 + 64], &RMS, VALUE, w);
            }
        },
    );
    // large operands: every algorithm and size boundary
    let sizes: Vec<usize> = r.t(BIGS_Q.to_vec(), (1..=75).chain(90..=100).chain(138..=146).chain(216..=236).chain([256, 257, 300, 330, 331, 332, 333, 438, 440, 441, 442, 443, 445, 512, 600, 660, 661, 662, 663, 664, 700, 880, 1000]).collect());
    mul_big(r, &sizes);
    // every pair of sizes up to a bound
    let top = r.t(400usize, 900);
    r.space(
        "mul-every-size",
        &[top, top, r.t(2, 3)],
        |i| format!("sizes={},{} kind={}", i[0] + 1, i[1] + 1, i[2]),
        |i, w| {
            let (n1, n2) = (i[0] + 1, i[1] + 1);
            if n2 > n1 {
                return;
            }
            let k = [(0, 0), (3, 3), (5, 10)][i[2]];
            big_mul_check(&mk(&pattern(k.0, n1), false, 0), &mk(&pattern(k.1, n2), false, 0), n1 * 64, w);
        },
    );
    // a carry or a part of zeros at every word of operands of each algorithm
    let ss: Vec<(usize, usize)> = r.t(
        vec![(33, 33), (34, 33), (47, 40), (65, 64), (66, 66), (100, 35), (130, 129), (221, 221), (222, 221), (223, 223), (300, 221), (445, 230)],
        vec![(33, 33), (34, 33), (35, 34), (47, 40), (64, 64), (65, 64), (66, 66), (67, 67), (100, 35), (130, 129), (131, 131), (200, 199), (221, 221), (222, 221), (222, 222), (223, 223), (224, 224), (300, 221), (445, 230), (663, 663), (664, 664), (1000, 400)],
    );
    let longest = ss.iter().map(|x| x.0).max().unwrap();
    r.space(
        "mul-sparse",
        &[ss.len(), longest, 4, 5],
        |i| format!("sizes={:?} word={} kind={} other={}", ss[i[0]], i[1], i[2], i[3]),
        |i, w| {
            let (n1, n2) = ss[i[0]];
            if i[1] >= n1 {
                return;
            }
            let mut a = vec![0 as Word; n1];
            match i[2] {
                0 => a[i[1]] = 1,
                1 => a[i[1]..].fill(MAX),
                2 => {
                    a.fill(MAX);
                    a[i[1]] = 0;
                }
                _ => a[..=i[1]].fill(MAX),
            }
            a[n1 - 1] |= MSB;
            let b = match i[3] {
                0 => pattern(0, n2),
                1 => pattern(3, n2),
                2 => pattern(1, n2),
                3 => {
                    let mut b = vec![0 as Word; n2];
                    b[i[1].min(n2 - 1)] = MAX;
                    b[n2 - 1] |= MSB;
                    b
                }
                _ => {
                    let mut b = vec![MAX; n2];
                    b[(n1 - 1 - i[1]).min(n2 - 1)] = 0;
                    b[n2 - 1] |= MSB;
                    b
                }
            };
            big_mul_check(&mk(&a, false, 0), &mk(&b, false, 0), n1 * 64, w);
        },
    );
    let kinds: Vec<usize> = r.t(vec![0, 3, 4], (0..NKIND).collect());
    let fft: Vec<(usize, usize)> = r.t(
        vec![(5401, 5401), (5400, 5401), (5401, 5402), (5500, 5405), (6000, 7001), (8192, 8192), (5401, 10801), (8191, 6000)],
        vec![
            (5399, 5399), (5400, 5400), (5401, 5401), (5400, 5401), (5401, 5402), (5500, 5405), (5403, 6007), (6000, 7001), (8190, 8191),
            (8192, 8192), (8193, 8193), (8192, 5401), (5401, 10801), (5401, 10803), (9000, 9000), (10240, 10241), (12000, 11000), (5450, 17000),
            (16384, 16384), (16385, 16383), (13000, 13500), (20000, 20000), (24576, 20001), (32768, 32768), (221, 5401), (700, 5500), (3000, 12000),
        ],
    );
    r.space(
        "mul-fft",
        &[fft.len(), kinds.len(), kinds.len()],
        |i| format!("sizes={:?} kinds={},{}", fft[i[0]], kinds[i[1]], kinds[i[2]]),
        |i, w| {
            let a = mk(&pattern(kinds[i[1]], fft[i[0]].0), false, 1);
            let b = mk(&pattern(kinds[i[2]], fft[i[0]].1), true, 1);
            big_mul_check(&a, &b, fft[i[0]].0 * 64, w);
        },
    );
    // sparse operands: parts of the transform that are zero, or next to a multiple of the modulus
    let fs: Vec<(usize, usize)> = r.t(vec![(5401, 5401), (5401, 6000)], vec![(5401, 5401), (5401, 6000), (8192, 8192), (10240, 10241), (20000, 20000)]);
    let np = r.t(640, 2048);
    r.space(
        "mul-fft-sparse",
        &[fs.len(), np, 2, 3],
        |i| format!("sizes={:?} position={} ones={} other={}", fs[i[0]], i[1], i[2], i[3]),
        |i, w| {
            let (n1, n2) = fs[i[0]];
            let top = n1 * 64 - 1;
            // positions cover every part of the transform and the words of a part
            let pos = if i[1] < np / 2 { (i[1] * top) / (np / 2) } else { (i[1] - np / 2) * 64 };
            let mut a = vec![0 as Word; n1];
            if i[2] == 0 {
                a[pos / 64] |= 1 << (pos % 64);
            } else {
                a[pos / 64..].fill(MAX);
            }
            a[n1 - 1] |= MSB;
            let b = match i[3] {
                0 => pattern(0, n2),
                1 => {
                    let mut b = vec![0 as Word; n2];
                    b[n2 - 1] = MSB;
                    b[0] = 1;
                    b
                }
                _ => {
                    let mut b = vec![0 as Word; n2];
                    b[pos / 64] = 1 << (pos % 64);
                    b[n2 - 1] |= MSB;
                    b
                }
            };
            big_mul_check(&mk(&a, false, 1), &mk(&b, true, 1), n1 * 64, w);
        },
    );
}

fn big_mul_check(a: &BigFloat, b: &BigFloat, p: usize, w: &mut W) {
    let d = dy(a).mul(&dy(b));
    let x = a.mul(b, p, RM::ToEven);
    let c = check(&x, d.neg, &d.m, d.e, false, p, RM::ToEven, false, VALUE);
    w.sub(c, || format!("mul p={} ToEven", p));
    let x = b.mul_full_prec(a);
    let c = exact_eq(&x, &d);
    w.sub(c, || "mul_full_prec (swapped)".into());
}

/// library result must be a finite number with exactly this value, canonical, not inexact
pub fn exact_eq(x: &BigFloat, d: &Dy) -> Result<bool, String> {
    let (wd, nn, _, e, i) = match x.as_raw_parts() {
        None => return Err(format!("got {} want {}", show(x), d.show())),
        Some(v) => v,
    };
    let _ = e;
    let dx = dy(x);
    let bl = bitlen(wd);
    if d.is_zero() {
        if !dx.is_zero() || !x.is_zero() {
            return Err(format!("got {} want 0", show(x)));
        }
    } else if dx.cmp(d) != std::cmp::Ordering::Equal {
        return Err(format!("got {} want {}", show(x), trunc(d.show())));
    }
    if i {
        return Err(format!("exact result marked inexact: {}", show(x)));
    }
    if bl != 0 && bl != wd.len() * WB && e as i64 != EMIN {
        return Err(format!("not canonical: {}", show(x)));
    }
    // the reported bit length matches the mantissa
    if nn != if bl == wd.len() * WB { wd.len() * WB } else { bl } {
        return Err(format!("bit length {} does not match the mantissa {}", nn, show(x)));
    }
    Ok(!d.is_zero())
}

pub fn trunc(s: String) -> String {
    if s.len() > 400 {
        format!("{}...({} chars)", &s[..400], s.len())
    } else {
        s
    }
}

fn mul_big(r: &Run, sizes: &[usize]) {
    r.space(
        "mul-sizes",
        &[sizes.len(), sizes.len(), NKIND, NKIND],
        |i| format!("sizes={},{} kinds={},{}", sizes[i[0]], sizes[i[1]], i[2], i[3]),
        |i, w| {
            let a = mk(&pattern(i[2], sizes[i[0]]), false, 0);
            let b = mk(&pattern(i[3], sizes[i[1]]), false, 0);
            big_mul_check(&a, &b, sizes[i[1]] * 64, w);
        },
    );
}

/// quotient of positive integers a*2^ea / b*2^eb with p+2 or more bits and a sticky bit
pub fn quot(a: &Dy, b: &Dy, p: usize) -> (Integer, i64, bool) {
    let k = (p as i64 + 3 + b.m.significant_bits() as i64 - a.m.significant_bits() as i64).max(0);
    let num = Integer::from(&a.m << k as u32);
    let (q, rem) = num.div_rem(b.m.clone());
    (q, a.e - b.e - k, rem != 0)
}

pub fn div_case(a: &BigFloat, b: &BigFloat, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let (da, db) = (dy(a), dy(b));
    let fl = a.inexact() || b.inexact();
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        let (q, e, st) = quot(&da, &db, rp(p));
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            let x = a.div(b, p, rm);
            let c = check(&x, da.neg != db.neg, &q, e, st, rp(p), rm, fl, cmp);
            w.sub(c, || format!("div({}, {}) p={} {:?}", show(a), show(b), p, rm));
        }
    }
}

pub fn recip_case(b: &BigFloat, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let db = dy(b);
    let one = Dy::int(1);
    for &p in ps {
        let (q, e, st) = quot(&one, &db, rp(p));
        for &rm in rms {
            let x = b.reciprocal(p, rm);
            let c = check(&x, db.neg, &q, e, st, rp(p), rm, b.inexact(), cmp);
            w.sub(c, || format!("reciprocal({}) p={} {:?}", show(b), p, rm));
        }
    }
}

pub fn div_small(r: &Run, name: &str, cmp: Cmp, ma: &[BigFloat], mb: &[BigFloat], ps: &[usize]) {
    r.space(
        name,
        &[ma.len(), mb.len(), 4],
        |i| format!("a={} b={} signs={}", show(&ma[i[0]]), show(&mb[i[1]]), i[2]),
        |i, w| {
            let a = with_sign(&ma[i[0]], i[2] & 1 != 0);
            let b = with_sign(&mb[i[1]], i[2] & 2 != 0);
            div_case(&a, &b, ps, &RMS, cmp, w);
        },
    );
}

pub fn c03(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one div/reciprocal call compared with the exact quotient rounded once; nontrivial = quotient does not fit the precision".into();
    let m = nums(&r.t(mants(14, (8, 9), (5, 5, 4), (3, 3, 2, 2)), mants(14, (14, 14), (8, 8, 7), (5, 5, 4, 4))), 3);
    let m2 = nums(&r.t(mants(14, (8, 9), (5, 5, 5), (3, 3, 3, 3)), mants(14, (14, 14), (8, 8, 8), (5, 5, 5, 5))), -70);
    div_small(r, "div", VALUE, &m, &m2, &PS);
    // exponents of every magnitude
    let xn = all_exps_nums(&r.t(vec![vec![MAX], vec![5, MIX | MSB]], vec![vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]));
    r.space(
        "div-exponents",
        &[xn.len(), xn.len()],
        |i| format!("a={} b={}", show(&xn[i[0]]), show(&xn[i[1]])),
        |i, w| {
            let a = with_sign(&xn[i[0]], (i[0] + i[1]) % 3 == 0);
            div_case(&a, &xn[i[1]], &[64, 128], &RMS6, VALUE, w);
            if i[1] == 0 {
                recip_case(&a, &[64, 128, 192], &RMS6, VALUE, w);
            }
        },
    );
    r.space(
        "reciprocal",
        &[m2.len(), 2],
        |i| format!("b={} sign={}", show(&m2[i[0]]), i[1]),
        |i, w| recip_case(&with_sign(&m2[i[0]], i[1] == 1), &[64, 128, 192, 256, 320, 512], &RMS, VALUE, w),
    );
    // quotients at and next to rounding boundaries: a = q*b + delta
    let bs = nums(&r.t(mants(14, (8, 9), (4, 4, 4), (2, 2, 2, 2)), mants(14, (14, 14), (8, 7, 7), (4, 4, 4, 4))), 0);
    let qs: Vec<Vec<Word>> = {
        let mut v = vec![];
        for pl in 1..=3usize {
            for t in &TOPS[..r.t(6, 10)] {
                for bw in [None, Some(MSB), Some(1), Some(MAX), Some(MSB | 1), Some(MSB - 1)] {
                    for l in [0, MAX, 1] {
                        let mut q = vec![];
                        if let Some(b) = bw {
                            q.push(b);
                        }
                        for k in 0..pl {
                            q.push(if k + 1 == pl { *t } else { l });
                        }
                        v.push(q);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "div-near-boundary",
        &[bs.len(), qs.len(), 5],
        |i| format!("b={} q={:x?} delta={}", show(&bs[i[0]]), qs[i[1]], i[2] as i64 - 2),
        |i, w| {
            let b = &bs[i[0]];
            let q = from_words(&qs[i[1]]);
            let a = q * dy(b).m + (i[2] as i64 - 2);
            let al = rp(a.significant_bits() as usize);
            let a = encode(&Dy::new(false, a, 5), al);
            let k = qs[i[1]].len() * 64;
            let ps: Vec<usize> = if k >= 128 { vec![k - 64, k, k + 64] } else { vec![k, k + 64] };
            div_case(&a, b, &ps, &RMS, VALUE, w);
        },
    );
    // large operands; thresholds 70, 160 words
    let la: Vec<usize> = r.t(vec![1, 2, 3, 35, 69, 70, 71, 72, 139, 140, 141, 142, 145, 159, 160, 161, 200, 231, 280, 320, 321, 330, 400, 480, 500], vec![1, 2, 3, 4, 5, 7, 16, 34, 35, 36, 68, 69, 70, 71, 72, 73, 74, 100, 120, 138, 139, 140, 141, 142, 143, 144, 145, 146, 158, 159, 160, 161, 162, 200, 210, 211, 230, 231, 280, 281, 319, 320, 321, 322, 330, 400, 480, 481, 500, 640, 800]);
    let lb: Vec<usize> = r.t(vec![1, 2, 34, 69, 70, 71, 72, 100, 140, 141, 159, 160, 161, 200], vec![1, 2, 3, 34, 35, 36, 68, 69, 70, 71, 72, 73, 100, 101, 139, 140, 141, 142, 158, 159, 160, 161, 162, 200, 230]);
    r.space(
        "div-sizes",
        &[la.len(), lb.len(), NKIND, NKIND],
        |i| format!("la={} lb={} kinds={},{}", la[i[0]], lb[i[1]], i[2], i[3]),
        |i, w| {
            let a = mk(&pattern(i[2], la[i[0]]), false, 0);
            let b = mk(&pattern(i[3], lb[i[1]]), false, 0);
            div_case(&a, &b, &[64, la[i[0]] * 64], &[RM::ToEven, RM::Up], VALUE, w);
        },
    );
    // every pair of sizes up to a bound: quotients with all digits of the dividend, and exact quotients less one
    let (ta, tb) = r.t((300usize, 250usize), (520, 400));
    r.space(
        "div-every-size",
        &[ta, tb, 3],
        |i| format!("sizes={},{} kind={}", i[0] + 1, i[1] + 1, i[2]),
        |i, w| {
            let (na, nb) = (i[0] + 1, i[1] + 1);
            if i[2] < 2 {
                let k = [(1, 0), (3, 3)][i[2]];
                div_case(&mk(&pattern(k.0, na), false, 0), &mk(&pattern(k.1, nb), false, 0), &[na * 64], &[RM::ToEven], VALUE, w);
            } else {
                let q = from_words(&pattern(0, na));
                let b = mk(&pattern(5, nb), false, 0);
                let a: Integer = q * dy(&b).m - 1;
                let al = rp(a.significant_bits() as usize);
                div_case(&encode(&Dy::new(false, a, 0), al), &b, &[na * 64], &[RM::ToZero], VALUE, w);
            }
        },
    );
    // large exact quotients +- 1
    r.space(
        "div-sizes-exact",
        &[lb.len(), lb.len(), NKIND, NKIND, 3],
        |i| format!("lq={} lb={} kinds={},{} delta={}", lb[i[0]], lb[i[1]], i[2], i[3], i[4] as i64 - 1),
        |i, w| {
            let q = from_words(&pattern(i[2], lb[i[0]]));
            let b = mk(&pattern(i[3], lb[i[1]]), false, 0);
            let a = q * dy(&b).m + (i[4] as i64 - 1);
            let al = rp(a.significant_bits() as usize);
            let a = encode(&Dy::new(false, a, 0), al);
            div_case(&a, &b, &[lb[i[0]] * 64], &[RM::ToEven, RM::ToZero, RM::FromZero], VALUE, w);
        },
    );
}

pub fn rem_expected(da: &Dy, db: &Dy) -> Dy {
    // |a| mod |b|
    let k = da.e - db.e;
    if da.abs_cmp(db) == std::cmp::Ordering::Less {
        return da.clone();
    }
    if da.is_zero() {
        return Dy::new(da.neg, Integer::new(), 0);
    }
    if k >= 0 {
        // (ma * 2^k) mod mb
        let m = db.m.clone();
        let p2 = Integer::from(2).pow_mod(&Integer::from(k), &m).unwrap_or_default();
        let r = (Integer::from(&da.m * &p2)).div_rem_floor(m).1;
        Dy::new(da.neg, r, db.e)
    } else {
        let mb = Integer::from(&db.m << (-k) as u32);
        let r = Integer::from(&da.m % &mb);
        Dy::new(da.neg, r, da.e)
    }
}
trait DivRemFloor {
    fn div_rem_floor(self, m: Integer) -> (Integer, Integer);
}
impl DivRemFloor for Integer {
    fn div_rem_floor(self, m: Integer) -> (Integer, Integer) {
        let q = Integer::from((&self).div_floor(&m));
        let r = self - Integer::from(&q * &m);
        (q, r)
    }
}

pub fn rem_case(a: &BigFloat, b: &BigFloat, w: &mut W) {
    let (da, db) = (dy(a), dy(b));
    let x = a.rem(b);
    let d = rem_expected(&da, &db);
    let c = exact_eq(&x, &d).and_then(|nt| {
        if nt && x.is_negative() != da.neg {
            Err(format!("sign of {}", show(&x)))
        } else {
            Ok(nt)
        }
    });
    w.sub(c, || format!("rem({}, {})", show(a), show(b)));
}

pub fn c04(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one rem call compared with the exact remainder; nontrivial = remainder is not zero".into();
    let m = nums(&r.t(mants(14, (6, 8), (4, 4, 4), (2, 2, 2, 2)), mants(14, (12, 12), (6, 6, 6), (4, 4, 4, 4))), 0);
    let ds = {
        let mut v = dexps(r.t(5, 7), true);
        let n: Vec<i64> = v.iter().map(|x| -x).filter(|x| *x > -200).collect();
        v.extend(n);
        v.extend([1000i64, 1023, 4096, 100_003]);
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "rem",
        &[m.len(), m.len(), ds.len()],
        |i| format!("a={} b={} de={}", show(&m[i[0]]), show(&m[i[1]]), ds[i[2]]),
        |i, w| {
            let a = with_exp(&m[i[0]], (ds[i[2]] + 9) as Exponent);
            let b = with_exp(&m[i[1]], 9);
            for s in 0..4 {
                rem_case(&with_sign(&a, s & 1 != 0), &with_sign(&b, s & 2 != 0), w);
            }
        },
    );
    // a = q*b + delta: remainders at the edges 0, 1, b-1
    let qs: Vec<Integer> = {
        let mut v = vec![];
        for k in [1i64, 2, 3, 5] {
            v.push(Integer::from(k));
        }
        for sh in [31u32, 32, 63, 64, 65, 127, 128, 129, 192, 256] {
            v.push(Integer::from(1) << sh);
            v.push((Integer::from(1) << sh) - 1);
            v.push((Integer::from(1) << sh) + 1);
        }
        v
    };
    let bs = nums(&r.t(mants(14, (8, 8), (4, 4, 4), (2, 2, 2, 2)), mants(14, (14, 14), (8, 7, 7), (4, 4, 4, 4))), 0);
    r.space(
        "rem-edges",
        &[bs.len(), qs.len(), 5, 6],
        |i| format!("b={} q={} delta={} shift={}", show(&bs[i[0]]), qs[i[1]], i[2] as i64 - 2, i[3]),
        |i, w| {
            let sh = [0i64, 1, 63, 64, 65, 200][i[3]];
            let b = &bs[i[0]];
            let db = dy(b);
            let a = Integer::from(&qs[i[1]] * &db.m) + (i[2] as i64 - 2);
            let al = rp(a.significant_bits() as usize);
            // scaling both by the same power of two keeps the relation; scaling only a changes the quotient
            let a1 = encode(&Dy::new(false, a, db.e + sh), al);
            rem_case(&a1, b, w);
            rem_case(&with_sign(&a1, true), b, w);
        },
    );
    let la: Vec<usize> = r.t(vec![1, 2, 35, 70, 71, 140, 141, 160, 161, 230, 330], vec![1, 2, 3, 34, 35, 70, 71, 72, 139, 140, 141, 142, 159, 160, 161, 162, 230, 330, 331, 480]);
    let sh = [0i64, 64, 65, 640, 4470, 20001, 333_333];
    r.space(
        "rem-sizes",
        &[la.len(), la.len(), NKIND, NKIND, r.t(5, 7)],
        |i| format!("la={} lb={} kinds={},{} de={}", la[i[0]], la[i[1]], i[2], i[3], sh[i[4]]),
        |i, w| {
            let a = mk(&pattern(i[2], la[i[0]]), false, sh[i[4]] as Exponent);
            let b = mk(&pattern(i[3], la[i[1]]), false, 0);
            rem_case(&a, &b, w);
        },
    );
    let top = r.t(300usize, 600);
    r.space(
        "rem-every-size",
        &[top, top, 3],
        |i| format!("sizes={},{} kind={}", i[0] + 1, i[1] + 1, i[2]),
        |i, w| {
            let k = [(1, 0, 0), (3, 3, 333), (0, 5, 64)][i[2]];
            rem_case(&mk(&pattern(k.0, i[0] + 1), false, k.2), &mk(&pattern(k.1, i[1] + 1), false, 0), w);
        },
    );
    // dividends far above (and below) the divisor
    let far: Vec<i64> = (10..=31).flat_map(|k| [-65i64, -1, 0, 1, 64].map(|d| (1i64 << k) + d)).chain([EMAX - EMIN - 200, EMAX - EMIN - 1, 3 << 29, 5 << 29, 7 << 29]).collect();
    r.space(
        "rem-far",
        &[far.len(), 3, 4, 2],
        |i| format!("gap={} a={} b={} below={}", far[i[0]], i[1], i[2], i[3]),
        |i, w| {
            let a = mk(&[vec![MSB], vec![3, MSB], vec![MAX, 1 << 5, MAX]][i[1]], false, 0);
            let b = mk(&[vec![MSB | 1], vec![MSB], vec![3, MSB], vec![MAX; 70]][i[2]], i[2] == 0, 0);
            let g = if i[3] == 1 { -far[i[0]] } else { far[i[0]] };
            rem_case(&with_exp(&a, (g - g / 2).clamp(EMIN, EMAX) as Exponent), &with_exp(&b, (-(g / 2)).clamp(EMIN, EMAX) as Exponent), w);
        },
    );
    let xn = all_exps_nums(&r.t(vec![vec![MAX], vec![5, MIX | MSB]], vec![vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]));
    r.space(
        "rem-exponents",
        &[xn.len(), xn.len()],
        |i| format!("a={} b={}", show(&xn[i[0]]), show(&xn[i[1]])),
        |i, w| rem_case(&with_sign(&xn[i[0]], (i[0] + i[1]) % 3 == 0), &xn[i[1]], w),
    );
    // zero and specials with exponent extremes
    let ext: Vec<(i64, i64)> = vec![(EMAX, EMAX), (EMAX, EMAX - 1), (EMIN, EMIN), (EMIN + 1, EMIN), (EMIN + 64, EMIN), (EMIN + 200, EMIN + 3), (EMIN, EMIN + 1), (EMIN, EMAX), (-5, EMAX), (EMIN, 5)];
    let mm = nums(&mants(6, (3, 4), (2, 2, 2), (0, 0, 0, 0)), 0);
    r.space(
        "rem-extreme-exponents",
        &[mm.len(), mm.len(), ext.len()],
        |i| format!("a={} b={} e={:?}", show(&mm[i[0]]), show(&mm[i[1]]), ext[i[2]]),
        |i, w| {
            let a = with_exp(&mm[i[0]], ext[i[2]].0 as Exponent);
            let b = with_exp(&mm[i[1]], ext[i[2]].1 as Exponent);
            rem_case(&a, &b, w);
            rem_case(&with_sign(&a, true), &b, w);
            rem_case(&BigFloat::new(64), &b, w);
            // subnormal divisor / dividend
            for bits in [1u32, 2, 17, 63] {
                let s = mk(&[(MAX >> (64 - bits)) as Word], false, EMIN as Exponent);
                if (ext[i[2]].0) < EMIN + 300 {
                    rem_case(&a, &s, w);
                }
                rem_case(&s, &b, w);
                rem_case(&s, &mk(&[3], false, EMIN as Exponent), w);
            }
        },
    );
}

/// floor root, sticky: value m*2^e, m >= 0, root k in {2,3}, at least p+3 bits
pub fn iroot(d: &Dy, k: u32, p: usize) -> (Integer, i64, bool) {
    let nb = d.m.significant_bits() as i64;
    let want = (p as i64 + 3) * k as i64;
    let mut sh = (want - nb).max(0);
    while (d.e - sh).rem_euclid(k as i64) != 0 {
        sh += 1;
    }
    let m = Integer::from(&d.m << sh as u32);
    if k == 2 {
        let (s, rem) = m.sqrt_rem(Integer::new());
        (s, (d.e - sh) / 2, rem != 0)
    } else {
        let (s, rem) = m.root_rem(Integer::new(), k);
        (s, (d.e - sh) / k as i64, rem != 0)
    }
}

pub fn root_case(a: &BigFloat, k: u32, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let d = dy(a);
    if k == 2 && d.neg && !d.is_zero() {
        let x = a.sqrt(128, RM::ToEven);
        let c = if is_err(&x, &["invalid"]) { Ok(true) } else { Err(format!("got {} want NaN(InvalidArgument)", show(&x))) };
        w.sub(c, || format!("sqrt({})", show(a)));
        return;
    }
    for (pi, &p) in ps.iter().enumerate() {
        w.sub[1] = pi;
        let (q, e, st) = if d.is_zero() { (Integer::new(), 0, false) } else { iroot(&d, k, rp(p)) };
        for (ri, &rm) in rms.iter().enumerate() {
            w.sub[2] = ri;
            let x = if k == 2 { a.sqrt(p, rm) } else { a.cbrt(p, rm) };
            let c = check(&x, d.neg, &q, e, st, rp(p), rm, a.inexact(), cmp);
            w.sub(c, || format!("{}({}) p={} {:?}", if k == 2 { "sqrt" } else { "cbrt" }, show(a), p, rm));
        }
    }
}

pub fn c05(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one sqrt/cbrt call compared with the exact root rounded once; nontrivial = root does not fit the precision".into();
    let m = nums(&r.t(mants(14, (14, 14), (8, 8, 8), (4, 5, 4, 4)), mants(14, (14, 14), (14, 12, 12), (8, 7, 7, 7))), 0);
    let es: Vec<Exponent> = (-7..=7).chain([-64, -63, 100, 1001, 1_000_000_007, -1_000_000_006]).collect();
    r.space(
        "root",
        &[m.len(), es.len(), 2],
        |i| format!("a={} e={} k={}", show(&m[i[0]]), es[i[1]], i[2] + 2),
        |i, w| {
            let a = with_exp(&m[i[0]], es[i[1]]);
            root_case(&a, i[2] as u32 + 2, &PS, &RMS, VALUE, w);
            root_case(&with_sign(&a, true), i[2] as u32 + 2, &PS[..2], &RMS, VALUE, w);
        },
    );
    // exponents of every magnitude
    let xn = all_exps_nums(&mants(14, (4, 4), (3, 3, 3), (2, 2, 2, 2)));
    r.space(
        "root-exponents",
        &[xn.len(), 2],
        |i| format!("a={} k={}", show(&xn[i[0]]), i[1] + 2),
        |i, w| {
            root_case(&xn[i[0]], i[1] as u32 + 2, &PS[..3], &RMS, VALUE, w);
            root_case(&with_sign(&xn[i[0]], true), i[1] as u32 + 2, &[64], &RMS, VALUE, w);
        },
    );
    // perfect powers and midpoints +- delta
    let qs: Vec<Vec<Word>> = {
        let mut v = vec![];
        for pl in 1..=3usize {
            for t in &TOPS[..r.t(14, 14)] {
                for bw in [None, Some(MSB), Some(1), Some(MAX), Some(MSB | 1), Some(MSB - 1)] {
                    for l in [0, MAX, 1, MSB, MIX] {
                        let mut q = vec![];
                        if let Some(b) = bw {
                            q.push(b);
                        }
                        for k in 0..pl {
                            q.push(if k + 1 == pl { *t } else { l });
                        }
                        v.push(q);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "root-near-boundary",
        &[qs.len(), 7, 2, r.t(3, 6)],
        |i| format!("q={:x?} delta={} k={} e={}", qs[i[0]], i[1] as i64 - 3, i[2] + 2, i[3]),
        |i, w| {
            let k = i[2] as u32 + 2;
            let q = from_words(&qs[i[0]]);
            let mut a = q.clone();
            for _ in 1..k {
                a *= &q;
            }
            a += i[1] as i64 - 3;
            let al = rp(a.significant_bits() as usize);
            // exponent multiple of k so that the boundary survives; other residues just as data
            let a = encode(&Dy::new(false, a, i[3] as i64 * 7 - 18), al);
            let ql = qs[i[0]].len() * 64;
            let ps: Vec<usize> = if ql > 64 { vec![ql - 64, ql] } else { vec![ql] };
            root_case(&a, k, &ps, &RMS, VALUE, w);
            if k == 3 {
                root_case(&with_sign(&a, true), k, &ps, &RMS, VALUE, w);
            }
        },
    );
    // small integers
    let ni = r.t(20_000usize, 300_000);
    r.space(
        "root-integers",
        &[ni, 2],
        |i| format!("a={} k={}", i[0], i[1] + 2),
        |i, w| {
            let a = BigFloat::from_u64(i[0] as u64, 64);
            root_case(&a, i[1] as u32 + 2, &[64, 128], &RMS, VALUE, w);
        },
    );
    let lens: Vec<usize> = r.t((4..=12).chain([31, 32, 33, 69, 70, 71, 141, 161]).collect(), (4..=80).chain([100, 139, 140, 141, 142, 160, 161, 162, 200, 255, 256, 257, 320, 333, 480]).collect());
    r.space(
        "root-sizes",
        &[lens.len(), NKIND, 3, 2, 3],
        |i| format!("len={} kind={} e={} k={} p={}", lens[i[0]], i[1], i[2], i[3] + 2, i[4]),
        |i, w| {
            let a = mk(&pattern(i[1], lens[i[0]]), false, i[2] as Exponent);
            let p = [64, lens[i[0]] * 64, lens[i[0]] * 96 / 64 * 64][i[4]];
            root_case(&a, i[3] as u32 + 2, &[p], &[RM::ToEven, RM::Up, RM::Down], VALUE, w);
        },
    );
    let top = r.t(200usize, 330);
    r.space(
        "root-every-size",
        &[top, 3, 2, 2],
        |i| format!("len={} kind={} k={} p={}", i[0] + 1, i[1], i[2] + 2, i[3]),
        |i, w| {
            let n = i[0] + 1;
            // operands of that size, or results of that size
            let a = mk(&pattern([0, 3, 7][i[1]], if i[3] == 0 { n } else { 3 }), false, i[1] as Exponent);
            root_case(&a, i[2] as u32 + 2, &[n * 64], &[RM::ToEven], VALUE, w);
        },
    );
    let ql: Vec<usize> = r.t(vec![5, 9, 17, 35, 36, 71], (4..=40).chain([69, 70, 71, 72, 100, 140]).collect());
    r.space(
        "root-sizes-perfect",
        &[ql.len(), NKIND, 3, 2],
        |i| format!("len={} kind={} delta={} k={}", ql[i[0]], i[1], i[2] as i64 - 1, i[3] + 2),
        |i, w| {
            let k = i[3] as u32 + 2;
            let q = from_words(&pattern(i[1], ql[i[0]]));
            let mut a = q.clone();
            for _ in 1..k {
                a *= &q;
            }
            a += i[2] as i64 - 1;
            let al = rp(a.significant_bits() as usize);
            let a = encode(&Dy::new(false, a, 6), al);
            root_case(&a, k, &[ql[i[0]] * 64, ql[i[0]] * 64 - 64], &[RM::ToEven, RM::Up, RM::ToZero], VALUE, w);
        },
    );
    // zeros
    r.space("root-zero", &[2, 2, 5], |i| format!("zero neg={} k={} p={}", i[0], i[1] + 2, PS[i[2]]), |i, w| {
        let z = with_sign(&BigFloat::new(64), i[0] == 1);
        root_case(&z, i[1] as u32 + 2, &[PS[i[2]]], &RMS, VALUE, w);
    });
}

fn full_case(a: &BigFloat, b: &BigFloat, w: &mut W) {
    let (da, db) = (dy(a), dy(b));
    let s = da.add(&db);
    let d = da.add(&db.neg());
    let m = da.mul(&db);
    w.sub(exact_eq(&a.add_full_prec(b), &s), || format!("add_full_prec({}, {})", show(a), show(b)));
    w.sub(exact_eq(&a.sub_full_prec(b), &d), || format!("sub_full_prec({}, {})", show(a), show(b)));
    w.sub(exact_eq(&a.mul_full_prec(b), &m), || format!("mul_full_prec({}, {})", show(a), show(b)));
}

pub fn c06(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one full-precision add/sub/mul compared with the exact result; nontrivial = result is not zero".into();
    let mut m = nums(&r.t(mants(14, (6, 8), (4, 4, 4), (2, 2, 2, 2)), mants(14, (12, 12), (6, 6, 6), (4, 4, 4, 4))), 0);
    m.push(BigFloat::new(64));
    m.push(BigFloat::new(192));
    let ds: Vec<i64> = dexps(r.t(5, 7), true).into_iter().chain([1000, 4097]).collect();
    r.space(
        "full",
        &[m.len(), m.len(), ds.len()],
        |i| format!("a={} b={} de={}", show(&m[i[0]]), show(&m[i[1]]), ds[i[2]]),
        |i, w| {
            let a = if m[i[0]].is_zero() { m[i[0]].clone() } else { with_exp(&m[i[0]], ds[i[2]] as Exponent) };
            let b = m[i[1]].clone();
            for s in 0..4 {
                full_case(&with_sign(&a, s & 1 != 0), &with_sign(&b, s & 2 != 0), w);
            }
        },
    );
    let lens: Vec<usize> = r.t(vec![1, 2, 3, 5, 32, 33, 34, 66, 70, 71, 99, 142, 220, 221, 222, 223, 442, 663], BIGS_Q.to_vec());
    let sh = [0i64, 1, 63, 64, 65, 129, 2000];
    r.space(
        "full-sizes",
        &[lens.len(), lens.len(), NKIND, NKIND, sh.len()],
        |i| format!("la={} lb={} kinds={},{} de={}", lens[i[0]], lens[i[1]], i[2], i[3], sh[i[4]]),
        |i, w| {
            let a = mk(&pattern(i[2], lens[i[0]]), false, sh[i[4]] as Exponent);
            let b = mk(&pattern(i[3], lens[i[1]]), true, 0);
            if i[4] == 0 {
                full_case(&a, &b, w);
            } else {
                let (da, db) = (dy(&a), dy(&b));
                w.sub(exact_eq(&a.add_full_prec(&b), &da.add(&db)), || "add_full_prec".into());
                w.sub(exact_eq(&b.sub_full_prec(&a), &db.add(&da.neg())), || "sub_full_prec".into());
            }
        },
    );
    // near-equal long numbers: cancellation down to the last bit
    r.space(
        "full-cancel",
        &[lens.len(), NKIND, 8, 3],
        |i| format!("len={} kind={} delta={} extra={}", lens[i[0]], i[1], i[2], i[3]),
        |i, w| {
            let a = mk(&pattern(i[1], lens[i[0]]), false, 9);
            let d = dy(&a);
            let x = 64 * i[3] as u32;
            let delta = [0i64, 1, -1, 2, -2, 255, -256, 1 << 40][i[2]];
            let mm = (d.m.clone() << x) + delta;
            let len = lens[i[0]] * 64 + x as usize;
            if mm.significant_bits() as usize > len {
                return;
            }
            let b = encode(&Dy::new(false, mm, d.e - x as i64), len);
            full_case(&a, &b, w);
            full_case(&b, &a, w);
        },
    );
    // exponents far apart: the result is as long as the gap
    let far: Vec<i64> = {
        let mut v = vec![];
        for k in 12..=r.t(26, 29) {
            for d in [-65i64, -1, 0, 1, 64] {
                v.push((1i64 << k) + d);
            }
            v.push(3i64 << (k - 1));
        }
        v
    };
    let fm = [vec![MSB], vec![3, MSB], vec![MAX, 1 << 5, MAX]];
    r.space(
        "full-far",
        &[far.len(), fm.len(), fm.len()],
        |i| format!("gap={} a={:x?} b={:x?}", far[i[0]], fm[i[1]], fm[i[2]]),
        |i, w| {
            let d = far[i[0]] as Exponent;
            let (ea, eb) = if i[1] == 0 { (d / 2, d / 2 - d) } else { (d, 0) };
            let a = mk(&fm[i[1]], false, ea);
            let b = mk(&fm[i[2]], i[2] == 1, eb);
            let (da, db) = (dy(&a), dy(&b));
            w.sub(exact_eq(&a.add_full_prec(&b), &da.add(&db)), || "add_full_prec".into());
            w.sub(exact_eq(&b.sub_full_prec(&a), &db.add(&da.neg())), || "sub_full_prec".into());
        },
    );
    // exponents of every magnitude
    let xn = all_exps_nums(&[vec![MAX], vec![5, MIX | MSB]]);
    r.space(
        "full-mul-exponents",
        &[xn.len(), xn.len()],
        |i| format!("a={} b={}", show(&xn[i[0]]), show(&xn[i[1]])),
        |i, w| {
            let a = with_sign(&xn[i[0]], (i[0] + i[1]) % 3 == 0);
            let m = dy(&a).mul(&dy(&xn[i[1]]));
            let t = m.top();
            if t <= EMAX && (t >= EMIN + 1 || m.e >= EMIN - 64) {
                w.sub(exact_eq(&a.mul_full_prec(&xn[i[1]]), &m), || "mul_full_prec".into());
            }
        },
    );
    let xd = [0i64, 1, 2, 63, 64, 65, 129, 4096];
    r.space(
        "full-addsub-exponents",
        &[xn.len(), xd.len(), 2],
        |i| format!("a={} de={} neg={}", show(&xn[i[0]]), xd[i[1]], i[2]),
        |i, w| {
            let a = with_sign(&xn[i[0]], i[2] == 1);
            let b = mk(&[3, MSB | 9], false, (a.exponent().unwrap() as i64 - xd[i[1]]).max(EMIN) as Exponent);
            let (da, db) = (dy(&a), dy(&b));
            for (n, x, m) in [("add", a.add_full_prec(&b), da.add(&db)), ("sub", a.sub_full_prec(&b), da.add(&db.neg())), ("sub of b", b.sub_full_prec(&a), db.add(&da.neg()))] {
                if m.is_zero() || m.top() <= EMAX {
                    w.sub(exact_eq(&x, &m), || format!("{}_full_prec", n));
                }
            }
        },
    );
    // subnormal and extreme operands whose exact results are representable
    let sub: Vec<BigFloat> = {
        let mut v = vec![];
        for words in [vec![1], vec![3], vec![MSB >> 1], vec![MAX >> 1], vec![MAX >> 40], vec![0, 1], vec![MAX, 1], vec![1, 0], vec![0, MSB >> 1], vec![MAX, MAX >> 1], vec![MSB], vec![MAX], vec![1, MSB]] {
            v.push(mk(&words, false, EMIN as Exponent));
        }
        for e in [1i64, 2, 63, 64, 65, 130] {
            v.push(mk(&[MSB], false, (EMIN + e) as Exponent));
            v.push(mk(&[MAX, MAX], false, (EMIN + e) as Exponent));
        }
        v
    };
    r.space(
        "full-subnormal",
        &[sub.len(), sub.len(), 4],
        |i| format!("a={} b={} signs={}", show(&sub[i[0]]), show(&sub[i[1]]), i[2]),
        |i, w| {
            let a = with_sign(&sub[i[0]], i[2] & 1 != 0);
            let b = with_sign(&sub[i[1]], i[2] & 2 != 0);
            let (da, db) = (dy(&a), dy(&b));
            w.sub(exact_eq(&a.add_full_prec(&b), &da.add(&db)), || "add_full_prec".into());
            w.sub(exact_eq(&a.sub_full_prec(&b), &da.add(&db.neg())), || "sub_full_prec".into());
        },
    );
    let _ = n;
}
