//! Exponent-range edges, inexact flag, comparison, integer parts, precision changes, raw parts, mutators, primitives.
use crate::alpha::*;
use crate::arith::*;
use crate::core::*;
use crate::oracle::*;
use astro_float_num::{BigFloat, Exponent, RoundingMode as RM, Sign, Word};
use rug::Integer;
use std::cmp::Ordering;

pub fn sgn(b: &BigFloat, neg: bool) -> BigFloat {
    let mut r = b.clone();
    if neg {
        r.inv_sign();
    }
    r
}

/// numbers next to both ends of the exponent range, subnormals included
pub fn extreme_nums(rich: bool) -> Vec<BigFloat> {
    let mut v = vec![];
    let ms: Vec<Vec<Word>> = if rich {
        mants(10, (5, 6), (3, 3, 3), (0, 0, 0, 0))
    } else {
        mants(6, (3, 4), (2, 2, 2), (0, 0, 0, 0))
    };
    for m in &ms {
        for e in [EMAX, EMAX - 1, EMAX - 63, EMAX - 64, EMIN, EMIN + 1, EMIN + 2, EMIN + 63, EMIN + 64, EMIN + 65, EMIN + 128, EMIN + 200] {
            v.push(mk(m, false, e as Exponent));
        }
    }
    v.extend(subnormals(rich));
    v
}

pub fn subnormals(rich: bool) -> Vec<BigFloat> {
    let mut v = vec![];
    let mut ws: Vec<Vec<Word>> = vec![];
    let one: &[Word] = &[1, 2, 3, 5, 7, MSB >> 1, MAX >> 1, MAX >> 2, (MSB >> 1) + 1, MAX >> 32, MAX >> 40, 0xff, 0x100, MAX >> 63, MSB >> 7, (MSB >> 7) - 1];
    for w in one {
        ws.push(vec![*w]);
    }
    let lows: &[Word] = if rich { &[0, 1, MAX, MSB, MSB - 1, MSB + 1, MIX] } else { &[0, 1, MAX, MSB] };
    for w in one.iter().chain(&[0]) {
        for l in lows {
            ws.push(vec![*l, *w]);
        }
    }
    for w in [0 as Word, 1, MAX >> 1, MSB >> 1] {
        for l in lows {
            for k in lows {
                if w == 0 && *l == 0 && !rich {
                    continue;
                }
                ws.push(vec![*k, *l, w]);
            }
        }
    }
    for w in ws {
        if w.iter().all(|x| *x == 0) {
            continue;
        }
        v.push(mk(&w, false, EMIN as Exponent));
    }
    v
}

/// a +- b for operands whose exponents are so far apart that b only decides the sticky bit
fn far_add(a: &Dy, b: &Dy) -> Dy {
    let k = 1200u32;
    let m = Integer::from(&a.m << k);
    let m = if a.neg == b.neg { m + 1 } else { m - 1 };
    Dy::new(a.neg, m, a.e - k as i64)
}

fn addsub_any(a: &BigFloat, b: &BigFloat, ps: &[usize], rms: &[RM], cmp: Cmp, w: &mut W) {
    let (da, db) = (dy(a), dy(b));
    let fl = a.inexact() || b.inexact();
    for sub in [false, true] {
        let db = if sub { db.neg() } else { db.clone() };
        let s = if (da.top() - db.top()).abs() > 4000 {
            if da.top() > db.top() {
                far_add(&da, &db)
            } else {
                far_add(&db, &da)
            }
        } else {
            da.add(&db)
        };
        for &p in ps {
            for &rm in rms {
                let x = if sub { a.sub(b, p, rm) } else { a.add(b, p, rm) };
                let c = check(&x, s.neg, &s.m, s.e, false, rp(p), rm, fl, cmp);
                w.sub(c, || format!("{}({}, {}) p={} {:?}", if sub { "sub" } else { "add" }, show(a), show(b), p, rm));
            }
        }
    }
}

pub fn c07(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one operation whose operands or exact result lie at the ends of the exponent range (or subnormal), compared with the exact result rounded once with gradual underflow/overflow to infinity; nontrivial = result inexact or infinite".into();
    let ps = [64usize, 128, 192];
    let ex = extreme_nums(!r.quick());
    r.space(
        "edge-addsub",
        &[ex.len(), ex.len(), 2],
        |i| format!("a={} b={} neg={}", show(&ex[i[0]]), show(&ex[i[1]]), i[2]),
        |i, w| {
            let b = sgn(&ex[i[1]], i[2] == 1);
            addsub_any(&ex[i[0]], &b, &ps, &RMS, VALUE, w);
            if r.quick() {
                return;
            }
            addsub_any(&sgn(&ex[i[0]], true), &b, &ps, &RMS, VALUE, w);
        },
    );
    // products: exponent sum at each end
    let ms = nums(&r.t(mants(8, (4, 5), (2, 2, 2), (0, 0, 0, 0)), mants(14, (8, 8), (4, 4, 4), (2, 2, 2, 2))), 0);
    let splits: Vec<(i64, i64)> = {
        let mut v = vec![];
        for d in [-2i64, -1, 0, 1, 2, 3] {
            v.push((EMAX / 2 + 1, EMAX / 2 + d));
            v.push((EMAX, d));
            v.push((EMAX - 77, 77 + d));
        }
        for d in [-200i64, -194, -193, -192, -191, -190, -130, -129, -128, -127, -126, -70, -66, -65, -64, -63, -62, -61, -33, -3, -2, -1, 0, 1, 2, 3] {
            v.push((EMIN / 2, EMIN / 2 + d));
            v.push((EMIN + 5, d - 5));
            v.push((d, EMIN));
        }
        v.push((EMAX, EMAX));
        v.push((EMIN, EMIN));
        v.push((EMAX, EMIN));
        v
    };
    r.space(
        "edge-mul",
        &[ms.len(), ms.len(), splits.len(), 2],
        |i| format!("a={} b={} e={:?} neg={}", show(&ms[i[0]]), show(&ms[i[1]]), splits[i[2]], i[3]),
        |i, w| {
            let a = with_exp(&ms[i[0]], splits[i[2]].0 as Exponent);
            let b = sgn(&with_exp(&ms[i[1]], splits[i[2]].1 as Exponent), i[3] == 1);
            mul_case(&a, &b, &ps, &RMS, VALUE, w);
        },
    );
    let sub = subnormals(!r.quick());
    let others: Vec<BigFloat> = {
        let mut v = vec![];
        for m in &mants(6, (3, 4), (1, 2, 2), (0, 0, 0, 0)) {
            for e in [0i64, 1, 2, -1, -5, -62, -63, -64, -65, -128, 61, 62, 63, 64, 65, 66, 120, 128, 129, 192, 300, EMAX, EMAX - 100, EMIN, EMIN + 60] {
                v.push(mk(m, false, e as Exponent));
            }
        }
        v
    };
    r.space(
        "subnormal-mul",
        &[sub.len(), others.len(), 2],
        |i| format!("a={} b={} neg={}", show(&sub[i[0]]), show(&others[i[1]]), i[2]),
        |i, w| mul_case(&sub[i[0]], &sgn(&others[i[1]], i[2] == 1), &ps, &RMS, VALUE, w),
    );
    r.space(
        "subnormal-div",
        &[sub.len(), others.len(), 2],
        |i| format!("a={} b={} neg={}", show(&sub[i[0]]), show(&others[i[1]]), i[2]),
        |i, w| {
            let b = sgn(&others[i[1]], i[2] == 1);
            div_case(&sub[i[0]], &b, &ps, &RMS, VALUE, w);
            div_case(&b, &sub[i[0]], &ps, &RMS, VALUE, w);
        },
    );
    r.space(
        "subnormal-div-subnormal",
        &[sub.len(), sub.len()],
        |i| format!("a={} b={}", show(&sub[i[0]]), show(&sub[i[1]])),
        |i, w| div_case(&sub[i[0]], &sub[i[1]], &ps, &RMS, VALUE, w),
    );
    let dsplits: Vec<(i64, i64)> = {
        let mut v = vec![];
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((EMAX, d));
            v.push((EMAX / 2 + 1, -(EMAX / 2) + d));
            v.push((d, -EMAX));
        }
        for d in [-200i64, -194, -193, -192, -191, -190, -129, -128, -127, -66, -65, -64, -63, -62, -61, -33, -3, -2, -1, 0, 1, 2, 3] {
            v.push((EMIN / 2, -(EMIN / 2) - d));
            v.push((EMIN + 9, 9 - d));
            v.push((d, EMAX));
            v.push((d - 1, EMAX));
        }
        v.push((EMAX, EMIN));
        v.push((EMIN, EMAX));
        v
    };
    r.space(
        "edge-div",
        &[ms.len(), ms.len(), dsplits.len(), 2],
        |i| format!("a={} b={} e={:?} neg={}", show(&ms[i[0]]), show(&ms[i[1]]), dsplits[i[2]], i[3]),
        |i, w| {
            let a = with_exp(&ms[i[0]], dsplits[i[2]].0 as Exponent);
            let b = sgn(&with_exp(&ms[i[1]], dsplits[i[2]].1 as Exponent), i[3] == 1);
            div_case(&a, &b, &ps, &RMS, VALUE, w);
        },
    );
    // multiplication of the smallest numbers so that the product lies around half of the smallest positive number
    r.space(
        "tiny-products",
        &[ms.len(), ms.len(), 9, 3],
        |i| format!("a={} b={} d={} p={}", show(&ms[i[0]]), show(&ms[i[1]]), i[2], ps[i[3]]),
        |i, w| {
            let p = ps[i[3]];
            let a = with_exp(&ms[i[0]], (EMIN + 1000) as Exponent);
            let b = with_exp(&ms[i[1]], (-1000 - p as i64 + 4 - i[2] as i64) as Exponent);
            mul_case(&a, &b, &[p], &RMS, VALUE, w);
            let b = with_exp(&ms[i[1]], (1000 + p as i64 - 4 + i[2] as i64) as Exponent);
            div_case(&a, &b, &[p], &RMS, VALUE, w);
        },
    );
    r.space(
        "edge-roots",
        &[ex.len(), 2],
        |i| format!("a={} k={}", show(&ex[i[0]]), i[1] + 2),
        |i, w| {
            root_case(&ex[i[0]], i[1] as u32 + 2, &ps, &RMS, VALUE, w);
            if i[1] == 1 {
                root_case(&sgn(&ex[i[0]], true), 3, &ps, &RMS, VALUE, w);
            } else {
                recip_case(&ex[i[0]], &ps, &RMS, VALUE, w);
            }
        },
    );
}

pub fn c08(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one operation whose value and inexact mark are compared with the exact result (marked iff digits were lost or an operand is marked); operands cover all markings; nontrivial = inexact result".into();
    let ms = nums(&r.t(mants(8, (5, 6), (3, 3, 3), (0, 0, 0, 0)), mants(14, (9, 10), (4, 5, 5), (3, 3, 3, 3))), 0);
    let ds = [0i64, 1, 2, 30, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 193, 256, 320, 1000, 100_000];
    let mark = |b: &BigFloat, f: bool| {
        let mut b = b.clone();
        b.set_inexact(f);
        b
    };
    let ps = [64usize, 128, 192, 256];
    r.space(
        "flag-addsub",
        &[ms.len(), ms.len(), ds.len(), 4],
        |i| format!("a={} b={} de={} marks={}", show(&ms[i[0]]), show(&ms[i[1]]), ds[i[2]], i[3]),
        |i, w| {
            let a = mark(&ms[i[0]], i[3] & 1 != 0);
            let b = mark(&with_exp(&ms[i[1]], -ds[i[2]] as Exponent), i[3] & 2 != 0);
            addsub_case(&a, &b, if i[3] == 0 { &ps } else { &ps[1..2] }, if i[3] == 0 { &RMS } else { &RMS[..3] }, STRICT, w);
        },
    );
    r.space(
        "flag-muldiv",
        &[ms.len(), ms.len(), 4],
        |i| format!("a={} b={} marks={}", show(&ms[i[0]]), show(&ms[i[1]]), i[2]),
        |i, w| {
            let a = mark(&ms[i[0]], i[2] & 1 != 0);
            let b = mark(&ms[i[1]], i[2] & 2 != 0);
            mul_case(&a, &b, &ps, &RMS, STRICT, w);
            div_case(&a, &b, &ps, &RMS, STRICT, w);
            // exact quotients
            let q = dy(&a).mul(&dy(&b));
            let mut ab = encode(&q, rp(q.m.significant_bits() as usize));
            ab.set_inexact(i[2] & 1 != 0);
            div_case(&ab, &b, &ps, &RMS, STRICT, w);
            if i[0] == i[1] {
                recip_case(&b, &ps, &RMS, STRICT, w);
            }
            // full precision results carry the marks
            for (n, x) in [("add_full_prec", a.add_full_prec(&b)), ("sub_full_prec", a.sub_full_prec(&b)), ("mul_full_prec", a.mul_full_prec(&b)), ("rem", a.rem(&b))] {
                let want = i[2] != 0;
                let c = if x.inexact() == want { Ok(true) } else { Err(format!("inexact mark {} want {}", x.inexact(), want)) };
                w.sub(c, || format!("{}({}, {})", n, show(&a), show(&b)));
            }
        },
    );
    // roots: perfect and not
    let qs = mants(14, (5, 6), (3, 3, 3), (0, 0, 0, 0));
    r.space(
        "flag-roots",
        &[qs.len(), 3, 2, 2],
        |i| format!("q={:x?} delta={} k={} mark={}", qs[i[0]], i[1] as i64 - 1, i[2] + 2, i[3]),
        |i, w| {
            let k = i[2] as u32 + 2;
            let q = from_words(&qs[i[0]]);
            let mut a = q.clone();
            for _ in 1..k {
                a *= &q;
            }
            a += i[1] as i64 - 1;
            let al = rp(a.significant_bits() as usize);
            let a = mark(&encode(&Dy::new(false, a, 6), al), i[3] == 1);
            root_case(&a, k, &ps, &RMS, STRICT, w);
        },
    );
    // zero operands and specials of the range
    let zs: Vec<BigFloat> = [(64, false), (64, true), (192, false), (192, true)].iter().map(|(p, f)| mark(&BigFloat::new(*p), *f)).collect();
    r.space(
        "flag-zero",
        &[zs.len(), ms.len(), 2],
        |i| format!("z={} a={} mark={}", show(&zs[i[0]]), show(&ms[i[1]]), i[2]),
        |i, w| {
            let z = &zs[i[0]];
            let a = mark(&ms[i[1]], i[2] == 1);
            addsub_case(z, &a, &ps, &RMS, STRICT, w);
            addsub_case(&a, z, &ps, &RMS, STRICT, w);
            // an exact zero makes products and quotients exact
            for (n, x) in [("mul", z.mul(&a, 128, RM::ToEven)), ("mul", a.mul(z, 128, RM::Up)), ("mul_full_prec", a.mul_full_prec(z)), ("div", z.div(&a, 64, RM::Down))] {
                let c = if x.is_zero() && x.inexact() == z.inexact() { Ok(true) } else { Err(format!("got {} inexact={}", show(&x), x.inexact())) };
                w.sub(c, || format!("{}({}, {})", n, show(z), show(&a)));
            }
            for z2 in &zs {
                let x = z.mul(z2, 64, RM::ToEven);
                let c = if x.is_zero() && x.inexact() == (z.inexact() && z2.inexact()) { Ok(true) } else { Err(format!("got {} inexact={}", show(&x), x.inexact())) };
                w.sub(c, || format!("mul({}, {})", show(z), show(z2)));
            }
            addsub_case(z, &zs[i[1] % zs.len()], &ps, &RMS[..2], STRICT, w);
            root_case(z, 2, &ps[..2], &RMS, STRICT, w);
            root_case(z, 3, &ps[..2], &RMS, STRICT, w);
        },
    );
    // range ends
    let ex = extreme_nums(false);
    let few: Vec<BigFloat> = ex.iter().enumerate().filter(|(i, _)| r.t(i % 3 == 0, true)).map(|(_, b)| b.clone()).collect();
    let e2: Vec<BigFloat> = {
        let mut v = nums(&mants(5, (2, 3), (0, 0, 0), (0, 0, 0, 0)), 0);
        for e in [-63i64, -64, -65, -130, 64] {
            v.push(with_exp(&ms[1], e as Exponent));
            v.push(with_exp(&ms[0], e as Exponent));
        }
        v
    };
    r.space(
        "flag-range-ends",
        &[few.len(), e2.len()],
        |i| format!("a={} b={}", show(&few[i[0]]), show(&e2[i[1]])),
        |i, w| {
            mul_case(&few[i[0]], &e2[i[1]], &ps[..3], &RMS, STRICT, w);
            div_case(&few[i[0]], &e2[i[1]], &ps[..3], &RMS, STRICT, w);
            addsub_any(&few[i[0]], &few[(i[0] * 7 + i[1] * 13) % few.len()], &ps[..3], &RMS, STRICT, w);
        },
    );
    // exponents of every magnitude
    let xn = all_exps_nums(&r.t(vec![vec![MAX], vec![5, MIX | MSB]], vec![vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]));
    r.space(
        "flag-muldiv-exponents",
        &[xn.len(), xn.len()],
        |i| format!("a={} b={}", show(&xn[i[0]]), show(&xn[i[1]])),
        |i, w| {
            let a = mark(&sgn(&xn[i[0]], (i[0] + i[1]) % 3 == 0), (i[0] ^ i[1]) % 5 == 0);
            mul_case(&a, &xn[i[1]], &[64, 128], &[RM::ToEven, RM::Up], STRICT, w);
            div_case(&a, &xn[i[1]], &[64, 128], &[RM::ToEven, RM::Down], STRICT, w);
        },
    );
    let xd = [0i64, 1, 63, 64, 65, 129, 1 << 20];
    r.space(
        "flag-exponents",
        &[xn.len(), xd.len(), 2],
        |i| format!("a={} de={} mark={}", show(&xn[i[0]]), xd[i[1]], i[2]),
        |i, w| {
            let a = mark(&xn[i[0]], i[2] == 1);
            let e = (a.exponent().unwrap() as i64 - xd[i[1]]).max(EMIN);
            addsub_any(&a, &mk(&[MAX, MSB | 3], false, e as Exponent), &[64, 128], &RMS, STRICT, w);
            if xd[i[1]] == 0 {
                root_case(&a, 2, &[64, 192], &RMS, STRICT, w);
                root_case(&sgn(&a, i[0] % 2 == 1), 3, &[64, 192], &RMS, STRICT, w);
                for p in [1usize, 63, 64, 65, 128, 192] {
                    for rm in RMS {
                        let c = set_prec_case(&a, p, rm, STRICT);
                        w.sub(c, || format!("set_precision({}, {}, {:?})", show(&a), p, rm));
                    }
                }
            }
        },
    );
    set_prec_space(r, "flag-set-precision", STRICT, true);
    round_space(r, "flag-round", STRICT);
}

// ---------------------------------------------------------------- C09

pub fn order_alphabet(rich: bool) -> Vec<(BigFloat, String)> {
    let mut v: Vec<BigFloat> = vec![];
    for m in &mants(if rich { 14 } else { 6 }, if rich { (6, 8) } else { (3, 4) }, (2, 3, 3), (0, 0, 0, 0)) {
        for e in [0i64, 1, -1, 64, EMAX, EMIN, EMIN + 1, EMIN + 64, EMIN + 65] {
            v.push(mk(m, false, e as Exponent));
        }
    }
    v.extend(subnormals(rich));
    // equal values with different lengths
    let n = v.len();
    for i in 0..n {
        if i % if rich { 3 } else { 7 } == 0 {
            let mut x = v[i].clone();
            let p = x.mantissa_max_bit_len().unwrap() + 64 * (1 + i % 2);
            x.set_precision(p, RM::ToEven).unwrap();
            v.push(x);
        }
    }
    for p in [64, 128, 256] {
        v.push(BigFloat::new(p));
    }
    for x in [BigFloat::max_value(64), BigFloat::max_value(128), BigFloat::min_positive(64), BigFloat::min_positive(128), BigFloat::min_positive_normal(64)] {
        v.push(x);
    }
    v.push(astro_float_num::INF_POS);
    let n = v.len();
    for i in 0..n {
        let mut x = v[i].clone();
        x.inv_sign();
        v.push(x);
    }
    v.push(astro_float_num::NAN);
    v.push(BigFloat::nan(Some(astro_float_num::Error::MemoryAllocation)));
    v.into_iter().map(|b| { let s = show(&b); (b, s) }).collect()
}

fn ord_of(a: &BigFloat, b: &BigFloat, abs: bool) -> Option<Ordering> {
    if a.is_nan() || b.is_nan() {
        return None;
    }
    let rank = |x: &BigFloat| if x.is_inf_pos() || (abs && x.is_inf_neg()) { 1 } else if x.is_inf_neg() { -1 } else { 0 };
    let (ra, rb) = (rank(a), rank(b));
    if ra != rb {
        return Some(ra.cmp(&rb));
    }
    if ra != 0 {
        return Some(Ordering::Equal);
    }
    let (mut da, mut db) = (dy(a), dy(b));
    if abs {
        da.neg = false;
        db.neg = false;
    }
    Some(da.cmp(&db))
}

pub fn c09(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one comparison result (cmp, abs_cmp, ==, partial_cmp, min, max, clamp, sign queries) compared with the order of exact values; nontrivial = both operands are numbers".into();
    let v = order_alphabet(!r.quick());
    let want_cmp = |o: Option<Ordering>, x: Option<i64>| match (o, x) {
        (None, None) => true,
        (Some(o), Some(x)) => x.cmp(&0) == o,
        _ => false,
    };
    // exponents of every magnitude
    let vx: Vec<(BigFloat, String)> = all_exps_nums(&[vec![MAX], vec![MSB], vec![0, MSB]])
        .into_iter()
        .enumerate()
        .map(|(i, x)| {
            let x = sgn(&x, i % 7 == 3);
            let s = show(&x);
            (x, s)
        })
        .collect();
    for (name, v) in [("order", &v), ("order-exponents", &vx)] {
        r.space(
            name,
            &[v.len(), v.len()],
            |i| format!("a={} b={}", v[i[0]].1, v[i[1]].1),
            |i, w| {
                let (a, b) = (&v[i[0]].0, &v[i[1]].0);
                let o = ord_of(a, b, false);
                let oa = ord_of(a, b, true);
                let nt = o.is_some();
                let mut t = |ok: bool, what: &str, got: String| {
                    w.sub(if ok { Ok(nt) } else { Err(format!("{} gives {}, order is {:?}, order of magnitudes is {:?}", what, got, o, oa)) }, || String::new());
                };
                let c = BigFloat::cmp(a, b);
                t(want_cmp(o, c.map(|x| x.signum() as i64)), "cmp", format!("{:?}", c));
                let c = a.abs_cmp(b);
                t(want_cmp(oa, c.map(|x| x.signum() as i64)), "abs_cmp", format!("{:?}", c));
                t((a == b) == (o == Some(Ordering::Equal)), "==", format!("{}", a == b));
                t((a != b) == (o != Some(Ordering::Equal)), "!=", format!("{}", a != b));
                t(a.partial_cmp(b) == o, "partial_cmp", format!("{:?}", a.partial_cmp(b)));
                t(a.partial_cmp(&b) == o, "partial_cmp(&)", format!("{:?}", a.partial_cmp(&b)));
                t(<BigFloat as PartialEq<&BigFloat>>::eq(a, &b) == (o == Some(Ordering::Equal)), "==(&)", String::new());
                t((a > b) == (o == Some(Ordering::Greater)), ">", format!("{}", a > b));
                t((a <= b) == matches!(o, Some(Ordering::Less | Ordering::Equal)), "<=", format!("{}", a <= b));
                t(<BigFloat as PartialOrd<&BigFloat>>::lt(a, &b) == (o == Some(Ordering::Less)), "<(&)", String::new());
                t((a < b) == (o == Some(Ordering::Less)), "<", format!("{}", a < b));
                t((a >= b) == matches!(o, Some(Ordering::Greater | Ordering::Equal)), ">=", format!("{}", a >= b));
                let mx = a.max(b);
                let mn = a.min(b);
                let is = |x: &BigFloat, y: &BigFloat| ord_of(x, y, false) == Some(Ordering::Equal);
                match o {
                    None => {
                        t(mx.is_nan(), "max", show(&mx));
                        t(mn.is_nan(), "min", show(&mn));
                    }
                    Some(o) => {
                        let (hi, lo) = if o == Ordering::Less { (b, a) } else { (a, b) };
                        t(is(&mx, hi) && (ident(&mx, a) || ident(&mx, b)), "max", show(&mx));
                        t(is(&mn, lo) && (ident(&mn, a) || ident(&mn, b)), "min", show(&mn));
                    }
                }
            },
        );
    }
    let s: Vec<&(BigFloat, String)> = v.iter().enumerate().filter(|(i, x)| i % r.t(23, 11) == 0 || x.0.is_nan() || x.0.is_inf() || x.0.is_zero()).map(|(_, x)| x).collect();
    r.space(
        "clamp",
        &[s.len(), s.len(), s.len()],
        |i| format!("x={} min={} max={}", s[i[0]].1, s[i[1]].1, s[i[2]].1),
        |i, w| {
            let (x, lo, hi) = (&s[i[0]].0, &s[i[1]].0, &s[i[2]].0);
            let c = x.clamp(lo, hi);
            let bad = x.is_nan() || lo.is_nan() || hi.is_nan() || ord_of(hi, lo, false) == Some(Ordering::Less);
            let res = if bad {
                if c.is_nan() {
                    Ok(false)
                } else {
                    Err(format!("got {} want NaN", show(&c)))
                }
            } else {
                let want = if ord_of(x, lo, false) == Some(Ordering::Less) {
                    lo
                } else if ord_of(x, hi, false) == Some(Ordering::Greater) {
                    hi
                } else {
                    x
                };
                if ident(&c, want) {
                    Ok(true)
                } else {
                    Err(format!("got {} want {}", show(&c), show(want)))
                }
            };
            w.sub(res, || "clamp".into());
        },
    );
    r.space(
        "queries",
        &[v.len()],
        |i| format!("x={}", v[i[0]].1),
        |i, w| {
            let x = &v[i[0]].0;
            let mut t = |ok: bool, what: &str| w.sub(if ok { Ok(true) } else { Err(format!("{} is wrong", what)) }, || String::new());
            let neg = x.sign() == Some(Sign::Neg);
            t(x.is_nan() == x.sign().is_none(), "sign() of NaN");
            t(x.is_positive() == (!x.is_nan() && !neg), "is_positive");
            t(x.is_negative() == (!x.is_nan() && neg), "is_negative");
            t(x.is_inf() == (x.is_inf_pos() || x.is_inf_neg()), "is_inf");
            use std::num::FpCategory::*;
            let cl = x.classify();
            let want = if x.is_nan() {
                Nan
            } else if x.is_inf() {
                Infinite
            } else {
                let d = dy(x);
                if d.is_zero() {
                    Zero
                } else if d.top() < EMIN {
                    Subnormal
                } else {
                    Normal
                }
            };
            t(cl == want, "classify");
            t((want != Nan && want != Infinite) || !x.is_int(), "is_int");
            t(x.is_zero() == (want == Zero), "is_zero");
            // zero has no top bit either, and the documentation counts it in
            t(x.is_subnormal() == (want == Subnormal) || want == Zero, "is_subnormal");
            let sg = x.signum();
            if x.is_nan() {
                t(sg.is_nan(), "signum of NaN");
            } else {
                let z = BigFloat::new(64);
                let one = BigFloat::from_i8(1, 64);
                let m1 = BigFloat::from_i8(-1, 64);
                let want = match ord_of(x, &z, false) {
                    Some(Ordering::Less) => m1,
                    Some(Ordering::Greater) => one,
                    _ => z,
                };
                t(ord_of(&sg, &want, false) == Some(Ordering::Equal), &format!("signum = {} (want {})", show(&sg), show(&want)));
            }
        },
    );
}

// ---------------------------------------------------------------- C11

/// rounding to n fractional bits
pub fn round_case(a: &BigFloat, n: usize, rms: &[RM], cmp: Cmp, w: &mut W) {
    let d = dy(a);
    let p = a.mantissa_max_bit_len().unwrap();
    for &rm in rms {
        let x = a.round(n, rm);
        let lsb = -(n as i64);
        let c = if d.is_zero() || d.e >= lsb {
            let v = round_ref(d.neg, &d.m, d.e, false, p, RM::ToZero);
            let mut v = v;
            orflag(&mut v, a.inexact());
            if same(&x, &v, cmp) {
                Ok(false)
            } else {
                Err(format!("got {} want unchanged", show(&x)))
            }
        } else {
            let modes: &[RM] = if rm == RM::None { &[RM::ToZero, RM::FromZero] } else { &[rm] };
            let mut res = Err(String::new());
            for m in modes {
                let (q, inex) = round_at(d.neg, &d.m, d.e, false, lsb, *m);
                let mut v = round_ref(d.neg, &q, lsb, false, p, RM::ToZero);
                orflag(&mut v, a.inexact() || inex);
                if same(&x, &v, cmp) {
                    res = Ok(inex);
                    break;
                }
                res = Err(format!("got {} want {}", show(&x), showv(&v)));
            }
            if rm == RM::None && res.is_err() {
                // no rounding requested: the number itself is acceptable as well
                if dy(&x).cmp(&d) == Ordering::Equal {
                    res = Ok(true);
                }
            }
            res
        };
        w.sub(c, || format!("round({}, {}) {:?}", show(a), n, rm));
    }
}

fn round_space(r: &Run, name: &str, cmp: Cmp) {
    let ms = nums(&r.t(mants(10, (6, 7), (3, 4, 4), (0, 0, 0, 0)), mants(14, (12, 12), (6, 6, 6), (3, 3, 3, 3))), 0);
    let es: Vec<i64> = r.t(
        vec![-130, -66, -65, -64, -63, -3, -2, -1, 0, 1, 2, 3, 5, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 190, 191, 192, 193, 300],
        (-70..=200).chain([-1000, 1000, EMAX, EMIN]).collect(),
    );
    let ns: Vec<i64> = vec![-3, -2, -1, 0, 1, 2, 3, 31, 32, 63, 64, 65, 127, 128, 129];
    r.space(
        name,
        &[ms.len(), es.len(), ns.len()],
        |i| format!("a={} e={} n=lowest+{}", show(&ms[i[0]]), es[i[1]], ns[i[2]]),
        |i, w| {
            let a = with_exp(&ms[i[0]], es[i[1]] as Exponent);
            // n around the number of fractional digits, and small n
            let p = a.mantissa_max_bit_len().unwrap() as i64;
            let mut cand = vec![p - es[i[1]] - ns[i[2]], -es[i[1]] - ns[i[2]]];
            if ns[i[2]] >= 0 {
                cand.push(ns[i[2]]);
            }
            for n in cand {
                if n >= 0 && n < (1 << 40) {
                    round_case(&a, n as usize, &RMS6, cmp, w);
                    round_case(&sgn(&a, true), n as usize, &RMS6, cmp, w);
                }
            }
        },
    );
    // exponents of every magnitude
    let xn = all_exps_nums(&[vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]);
    let xd = [-65i64, -2, -1, 0, 1, 2, 63, 64, 65, 128, 192];
    r.space(
        &format!("{}-exponents", name),
        &[xn.len(), xd.len(), 2],
        |i| format!("a={} n=top+{} neg={}", show(&xn[i[0]]), xd[i[1]], i[2]),
        |i, w| {
            let a = sgn(&xn[i[0]], i[2] == 1);
            let n = -(a.exponent().unwrap() as i64) + xd[i[1]];
            round_case(&a, n.max(0) as usize, &RMS6, cmp, w);
            round_case(&a, xd[i[1]].max(0) as usize, &RMS6, cmp, w);
        },
    );
    // next to the range ends
    let sub = extreme_nums(!r.quick());
    let ns: Vec<i64> = vec![-2, -1, 0, 1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 190, 191, 192, 193, 250];
    r.space(
        &format!("{}-range-ends", name),
        &[sub.len(), ns.len()],
        |i| format!("a={} n=-EMIN+{}", show(&sub[i[0]]), ns[i[1]]),
        |i, w| {
            let n = (-EMIN + ns[i[1]]) as usize;
            for s in [false, true] {
                let a = sgn(&sub[i[0]], s);
                if dy(&a).top() > 0 {
                    round_case(&a, ns[i[1]].max(0) as usize, &RMS6, cmp, w);
                } else {
                    round_case(&a, n, &RMS6, cmp, w);
                    round_case(&a, n + 60, &RMS6, cmp, w);
                }
            }
        },
    );
}

fn int_case(a: &BigFloat, w: &mut W) {
    let d = dy(a);
    let p = a.mantissa_max_bit_len().unwrap();
    let far = d.e > 0 || d.is_zero();
    let exp = |rm: RM| -> Integer {
        if far {
            return Integer::new();
        }
        round_at(d.neg, &d.m, d.e, false, 0, rm).0
    };
    let val = |q: Integer| -> Val { round_ref(d.neg, &q, 0, false, p, RM::ToZero) };
    let whole = |v: &BigFloat| -> bool { dy(v).cmp(&d) == Ordering::Equal && v.mantissa_max_bit_len() == Some(p) };
    for (name, x, rm) in [("int", a.int(), RM::ToZero), ("floor", a.floor(), RM::Down), ("ceil", a.ceil(), RM::Up)] {
        let c = if far {
            if whole(&x) && canon(&x).is_ok() {
                Ok(false)
            } else {
                Err(format!("got {} want unchanged", show(&x)))
            }
        } else {
            let v = val(exp(rm));
            let zero = matches!(&v, Val::Num{words,..} if words.iter().all(|w| *w == 0));
            if same(&x, &v, VALUE) && (!zero || x.is_zero()) {
                Ok(true)
            } else {
                Err(format!("got {} want {}", show(&x), showv(&v)))
            }
        };
        w.sub(c, || format!("{}({})", name, show(a)));
    }
    // fract = a - int(a), exactly, same sign
    let f = a.fract();
    let want = if far { Dy::new(d.neg, Integer::new(), 0) } else { d.add(&Dy::new(!d.neg, exp(RM::ToZero), 0)) };
    let c = canon(&f).and_then(|_| if dy(&f).cmp(&want) == Ordering::Equal { Ok(true) } else { Err(format!("got {} want {}", show(&f), want.show())) });
    w.sub(c, || format!("fract({})", show(a)));
    let isint = far || want.is_zero();
    let c = if a.is_int() == isint { Ok(true) } else { Err(format!("got {}", a.is_int())) };
    w.sub(c, || format!("is_int({})", show(a)));
}

/// structural canonical-form check of a finite number
pub fn canon(x: &BigFloat) -> Result<bool, String> {
    let (wd, n, _, e, _) = match x.as_raw_parts() {
        None => return Ok(false),
        Some(v) => v,
    };
    let bl = bitlen(wd);
    if bl == 0 {
        if n != 0 || !x.is_zero() || e != 0 {
            return Err(format!("zero is not canonical: n={} e={} is_zero={}", n, e, x.is_zero()));
        }
        return Ok(true);
    }
    if x.is_zero() {
        return Err(format!("non-zero mantissa reported as zero: {}", show(x)));
    }
    if n != bl {
        return Err(format!("bit length {} reported for {}", n, show(x)));
    }
    if bl != wd.len() * WB && e as i64 != EMIN {
        return Err(format!("top bit clear in {}", show(x)));
    }
    if (e as i64) < EMIN || e as i64 > EMAX {
        return Err(format!("exponent out of range: {}", show(x)));
    }
    if x.is_subnormal() != (bl != wd.len() * WB) {
        return Err(format!("is_subnormal() = {} for {}", x.is_subnormal(), show(x)));
    }
    Ok(true)
}

pub fn c11(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one of floor/ceil/int/fract/is_int/round(n, mode) compared with the exact integer arithmetic result; nontrivial = the number has fractional digits to drop".into();
    let ms = nums(&r.t(mants(14, (9, 10), (5, 5, 5), (2, 3, 3, 3)), mants(14, (14, 14), (8, 9, 9), (4, 5, 5, 5))), 0);
    let es: Vec<i64> = (r.t(-4, -70)..=r.t(262, 330)).chain([-1000, 1000, EMAX, EMIN, EMIN + 64]).collect();
    // what is no number is no integer
    let sp = [astro_float_num::NAN, astro_float_num::INF_POS, astro_float_num::INF_NEG, BigFloat::nan(Some(astro_float_num::Error::InvalidArgument))];
    r.space("is-int-special", &[sp.len()], |i| show(&sp[i[0]]), |i, w| {
        w.sub(if sp[i[0]].is_int() { Err("is_int is true".into()) } else { Ok(true) }, || String::new());
    });
    r.space(
        "int-parts",
        &[ms.len(), es.len()],
        |i| format!("a={} e={}", show(&ms[i[0]]), es[i[1]]),
        |i, w| {
            let a = with_exp(&ms[i[0]], es[i[1]] as Exponent);
            int_case(&a, w);
            int_case(&sgn(&a, true), w);
        },
    );
    // integers +- small fraction, long
    let lens = [5usize, 8, 17];
    r.space(
        "int-parts-long",
        &[lens.len(), NKIND, r.t(300, 1100)],
        |i| format!("len={} kind={} e={}", lens[i[0]], i[1], i[2]),
        |i, w| {
            let a = mk(&pattern(i[1], lens[i[0]]), false, i[2] as Exponent);
            int_case(&a, w);
            int_case(&sgn(&a, true), w);
        },
    );
    let sub = extreme_nums(false);
    r.space("int-parts-range-ends", &[sub.len(), 2], |i| format!("a={} neg={}", show(&sub[i[0]]), i[1]), |i, w| int_case(&sgn(&sub[i[0]], i[1] == 1), w));
    let xn = all_exps_nums(&[vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![1, 0, MSB]]);
    r.space("int-parts-exponents", &[xn.len(), 2], |i| format!("a={} neg={}", show(&xn[i[0]]), i[1]), |i, w| int_case(&sgn(&xn[i[0]], i[1] == 1), w));
    let zs = [BigFloat::new(64), BigFloat::new(128)];
    r.space("int-parts-zero", &[2, 2], |i| format!("zero {:?}", i), |i, w| int_case(&sgn(&zs[i[0]], i[1] == 1), w));
    round_space(r, "round", VALUE);
}

// ---------------------------------------------------------------- C12

pub fn set_prec_case(a: &BigFloat, p: usize, rm: RM, cmp: Cmp) -> Result<bool, String> {
    let d = dy(a);
    let mut x = a.clone();
    let res = x.set_precision(p, rm);
    let old = a.mantissa_max_bit_len().unwrap();
    let pw = rp(p);
    let modes: &[RM] = if rm == RM::None { &[RM::ToZero, RM::FromZero] } else { &[rm] };
    let mut last = Err(String::new());
    for m in modes {
        let (v, inex) = if old <= p {
            (round_ref(d.neg, &d.m, d.e, false, pw, RM::ToZero), false)
        } else {
            let top = if d.is_zero() { 0 } else { d.top() };
            let lsb = (top - p as i64).max(EMIN - p as i64);
            let (q, inex) = round_at(d.neg, &d.m, d.e, false, lsb, *m);
            (round_ref(d.neg, &q, lsb, false, pw, RM::ToZero), inex)
        };
        let mut v = v;
        orflag(&mut v, a.inexact() || inex);
        last = match (&res, &v) {
            (Err(astro_float_num::Error::ExponentOverflow(s)), Val::Inf { neg }) if (*s == Sign::Neg) == *neg => Ok(true),
            (Ok(()), v) if same(&x, v, cmp) => Ok(inex),
            _ => Err(format!("got {:?} {} want {}", res, show(&x), showv(&v))),
        };
        if last.is_ok() {
            break;
        }
        // RM::None may keep the digits below p inside the last word
        if rm == RM::None && old > p && p % WB != 0 {
            let v = round_ref(d.neg, &d.m, d.e, false, pw, RM::ToZero);
            if same(&x, &v, VALUE) {
                last = Ok(true);
                break;
            }
        }
    }
    last
}

fn set_prec_space(r: &Run, name: &str, cmp: Cmp, marks: bool) {
    let ms = nums(&r.t(mants(8, (7, 9), (5, 6, 6), (3, 4, 4, 4)), mants(14, (12, 13), (8, 8, 8), (5, 6, 6, 6))), 0);
    let ps: Vec<usize> = vec![1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130, 180, 190, 191, 192, 193, 200, 255, 256, 257, 320];
    r.space(
        name,
        &[ms.len(), ps.len(), if marks { 2 } else { 1 }],
        |i| format!("a={} p={} mark={}", show(&ms[i[0]]), ps[i[1]], i[2]),
        |i, w| {
            for (s, e) in [(false, 3i64), (true, 3), (false, EMAX), (true, EMAX), (false, EMIN), (true, EMIN + 1)] {
                let mut a = sgn(&with_exp(&ms[i[0]], e as Exponent), s);
                a.set_inexact(i[2] == 1);
                for rm in RMS {
                    let c = set_prec_case(&a, ps[i[1]], rm, cmp);
                    w.sub(c, || format!("set_precision({}, {}, {:?})", show(&a), ps[i[1]], rm));
                }
            }
        },
    );
    let sub = subnormals(true);
    r.space(
        &format!("{}-subnormal", name),
        &[sub.len(), ps.len(), 2, if marks { 2 } else { 1 }],
        |i| format!("a={} p={} neg={} mark={}", show(&sub[i[0]]), ps[i[1]], i[2], i[3]),
        |i, w| {
            let mut a = sgn(&sub[i[0]], i[2] == 1);
            a.set_inexact(i[3] == 1);
            for rm in RMS {
                let c = set_prec_case(&a, ps[i[1]], rm, cmp);
                w.sub(c, || format!("set_precision({}, {}, {:?})", show(&a), ps[i[1]], rm));
            }
        },
    );
}

pub fn c12(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one set_precision compared with the value rounded once to exactly p bits, or one try_set_precision whose success is checked against the rounding of both ends of the uncertainty interval; nontrivial = digits are dropped".into();
    set_prec_space(r, "set-precision", VALUE, false);
    let xn = all_exps_nums(&[vec![MSB], vec![MAX], vec![5, MIX | MSB], vec![MAX, MAX], vec![1, 0, MSB]]);
    let xp = [1usize, 2, 33, 63, 64, 65, 127, 128, 129, 192, 256];
    r.space(
        "set-precision-exponents",
        &[xn.len(), xp.len(), 2],
        |i| format!("a={} p={} neg={}", show(&xn[i[0]]), xp[i[1]], i[2]),
        |i, w| {
            let a = sgn(&xn[i[0]], i[2] == 1);
            for rm in RMS {
                let c = set_prec_case(&a, xp[i[1]], rm, VALUE);
                w.sub(c, || format!("set_precision {:?}", rm));
            }
        },
    );
    // every precision 1..=200 of a 3-word number
    let ms = nums(&r.t(mants(0, (0, 0), (5, 6, 6), (0, 0, 0, 0)), mants(0, (0, 0), (10, 10, 10), (0, 0, 0, 0))), 5);
    r.space(
        "set-precision-every-p",
        &[ms.len(), 200],
        |i| format!("a={} p={}", show(&ms[i[0]]), i[1] + 1),
        |i, w| {
            for rm in RMS {
                let c = set_prec_case(&ms[i[0]], i[1] + 1, rm, VALUE);
                w.sub(c, || format!("set_precision {:?}", rm));
            }
        },
    );
    // try_set_precision: mantissas of 2..4 words, p words kept, s words trusted (p < s <= len)
    let tails: [Word; 9] = [0, MAX, MSB, MSB - 1, MSB + 1, 1, MAX - 1, MIX, 0x7FFF_FFFF_0000_0000];
    let nt = tails.len();
    r.space(
        "try-set-precision",
        &[4, nt, nt, nt, nt, 2],
        |i| format!("top={:x} words={:?} mark={}", TOPS[i[0]], &i[1..5], i[5]),
        |i, w| {
            let words = [tails[i[4]], tails[i[3]], tails[i[2]], tails[i[1]], TOPS[i[0]]];
            for len in 2..=5usize {
                let mut a = mk(&words[5 - len..], false, 9);
                a.set_inexact(i[5] == 1);
                for neg in [false, true] {
                    let a = sgn(&a, neg);
                    for s in 1..=len {
                        for p in 1..=s {
                            if (i[1] + i[2]) % 3 != 0 && p < s - 1 && r.quick() {
                                continue;
                            }
                            for off in [0usize, 1, 33, 63] {
                                let pp = p * 64 - off;
                                if pp == len * 64 {
                                    continue;
                                }
                                for rm in RMS6 {
                                    let c = try_case(&a, pp, s * 64, rm);
                                    w.sub(c, || format!("try_set_precision({}, p={}, {:?}, s={})", show(&a), pp, rm, s * 64));
                                }
                            }
                        }
                    }
                }
            }
        },
    );
}

fn try_case(a: &BigFloat, p: usize, s: usize, rm: RM) -> Result<bool, String> {
    let d = dy(a);
    let mut x = a.clone();
    let ok = x.try_set_precision(p, rm, s);
    let lsb = d.top() - p as i64;
    let pw = rp(p);
    let (q, inex) = round_at(d.neg, &d.m, d.e, false, lsb, rm);
    let mut v = round_ref(d.neg, &q, lsb, false, pw, RM::ToZero);
    orflag(&mut v, a.inexact() || inex);
    if ok && !same(&x, &v, STRICT) {
        return Err(format!("succeeded with {} want {}", show(&x), showv(&v)));
    }
    if !a.inexact() {
        // an exact number is always decidable
        return if ok || inex { Ok(true) } else { Err("refused although the number is exact and needs no rounding".into()) };
    }
    // uncertainty: anything strictly within one unit of the last trusted bit
    let u = d.top() - s as i64;
    let k = (u - d.e + 8).max(8);
    let big = Integer::from(&d.m << k as u32);
    let unit = (Integer::from(1) << (u - d.e + k) as u32) - 1;
    let lo = Integer::from(&big - &unit);
    let hi = Integer::from(&big + &unit);
    let ql = round_at(d.neg, &lo, d.e - k, false, lsb, rm).0;
    let qh = round_at(d.neg, &hi, d.e - k, false, lsb, rm).0;
    if ok && (ql != qh || ql != q) {
        return Err(format!("succeeded although the {} trusted bits do not decide the rounding", s));
    }
    Ok(true)
}

// ---------------------------------------------------------------- C29

pub fn c29(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one raw-parts round trip, one rejected or accepted set of parts, or one construction from words compared with the exact value; nontrivial = accepted non-zero number".into();
    let v: Vec<BigFloat> = order_alphabet(!r.quick()).into_iter().map(|x| x.0).filter(|x| !x.is_nan() && !x.is_inf()).collect();
    r.space(
        "round-trip",
        &[v.len(), 2],
        |i| format!("x={} mark={}", show(&v[i[0]]), i[1]),
        |i, w| {
            let mut x = v[i[0]].clone();
            x.set_inexact(i[1] == 1);
            let (m, n, s, e, ix) = x.as_raw_parts().unwrap();
            let y = BigFloat::from_raw_parts(m, n, s, e, ix);
            w.sub(if ident(&x, &y) { Ok(true) } else { Err(format!("got {}", show(&y))) }, || "round trip".into());
            let c = if x.exponent() == Some(e) && x.sign() == Some(s) && x.inexact() == ix && x.precision() == Some(n) && x.mantissa_digits() == Some(m) && x.mantissa_max_bit_len() == Some(m.len() * WB) {
                Ok(true)
            } else {
                Err("accessors disagree with raw parts".into())
            };
            w.sub(c, || "accessors".into());
        },
    );
    let ws: Vec<Vec<Word>> = {
        let alpha: &[Word] = &[0, 1, MSB, MAX, MSB >> 1, MSB - 1, 2, 0xff00];
        let mut v = vec![vec![]];
        for a in alpha {
            v.push(vec![*a]);
            for b in alpha {
                v.push(vec![*a, *b]);
                for c in alpha {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
        v
    };
    let es: Vec<i64> = {
        let mut v = vec![5i64, EMIN + 64];
        v.extend(all_exps());
        v.sort();
        v.dedup();
        v
    };
    r.space(
        "parts",
        &[ws.len(), es.len(), 2],
        |i| format!("words={:x?} e={} neg={}", ws[i[0]], es[i[1]], i[2]),
        |i, w| {
            let m = &ws[i[0]];
            let p = m.len() * WB;
            let bl = bitlen(m);
            let s = if i[2] == 1 { Sign::Neg } else { Sign::Pos };
            for n in [0usize, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 1 << 20, usize::MAX, bl, bl.saturating_sub(1), bl + 1] {
                let x = BigFloat::from_raw_parts(m, n, s, es[i[1]] as Exponent, false);
                let valid = n == bl && (bl == p || bl == 0 || es[i[1]] == EMIN);
                let c = if !valid {
                    if is_err(&x, &["invalid"]) {
                        Ok(false)
                    } else {
                        Err(format!("invalid parts (n={}) accepted: {}", n, show(&x)))
                    }
                } else {
                    let want = Dy::new(i[2] == 1, from_words(m), es[i[1]] - p as i64);
                    match decode(&x) {
                        None => Err(format!("valid parts (n={}) rejected: {}", n, show(&x))),
                        Some(d) => canon(&x).and_then(|_| {
                            if d.cmp(&want) == Ordering::Equal && x.sign() == Some(s) {
                                Ok(true)
                            } else {
                                Err(format!("value {}", show(&x)))
                            }
                        }),
                    }
                };
                w.sub(c, || format!("from_raw_parts n={}", n));
            }
            // from_words: value = 0.m * 2^e
            let x = BigFloat::from_words(m, s, es[i[1]] as Exponent);
            let want = Dy::new(i[2] == 1, from_words(m), es[i[1]] - p as i64);
            let c = match decode(&x) {
                None => Err(format!("from_words gives {}", show(&x))),
                Some(d) => canon(&x).and_then(|_| {
                    if d.cmp(&want) == Ordering::Equal && x.sign() == Some(s) && x.mantissa_max_bit_len() == Some(p) && !x.inexact() {
                        Ok(true)
                    } else {
                        Err(format!("from_words gives {} want {}", show(&x), want.show()))
                    }
                }),
            };
            w.sub(c, || "from_words".into());
        },
    );
}

// ---------------------------------------------------------------- C30

pub fn c30(r: &Run) {
    *r.rule.lock().unwrap() = "one evaluation = one mutator or copy applied to one number with every attribute compared before and after; nontrivial = finite non-zero number".into();
    let v: Vec<BigFloat> = order_alphabet(!r.quick()).into_iter().map(|x| x.0).collect();
    let es: Vec<i64> = {
        let mut v = vec![0i64, 1, -1, 77, EMAX, EMAX - 1, -70000];
        for d in 0..=r.t(70, 200) {
            v.push(EMIN + d);
        }
        v.extend([EMIN + 100, EMIN + 126, EMIN + 127, EMIN + 128, EMIN + 129, EMIN + 191, EMIN + 192, EMIN + 193, EMIN + 1000]);
        v.extend(all_exps());
        v.sort();
        v.dedup();
        v
    };
    let parts = |x: &BigFloat| x.as_raw_parts().map(|(m, n, s, e, i)| (m.to_vec(), n, s, e, i));
    r.space(
        "mutators",
        &[v.len(), 2],
        |i| format!("x={} mark={}", show(&v[i[0]]), i[1]),
        |i, w| {
            let mut x = v[i[0]].clone();
            x.set_inexact(i[1] == 1);
            let nt = parts(&x).is_some();
            let mut t = |ok: bool, what: &str, y: &BigFloat| w.sub(if ok { Ok(nt) } else { Err(format!("{} gives {}", what, show(y))) }, String::new);
            let y = x.clone();
            t(ident(&x, &y), "clone", &y);
            let flip = |s: Sign| if s == Sign::Pos { Sign::Neg } else { Sign::Pos };
            let changed = |y: &BigFloat, s: Sign, ix: bool| -> bool {
                match (parts(&x), parts(y)) {
                    (Some((m, n, _, e, _)), Some(q)) => q == (m, n, s, e, ix),
                    (None, None) => {
                        if x.is_nan() {
                            ident(&x, y)
                        } else {
                            y.is_inf() && y.sign() == Some(s)
                        }
                    }
                    _ => false,
                }
            };
            let s0 = x.sign().unwrap_or(Sign::Pos);
            let i0 = x.inexact();
            for (what, y) in [("neg()", x.neg()), ("-x", -x.clone()), ("-&x", -&x)] {
                t(changed(&y, flip(s0), i0), what, &y);
            }
            let mut y = x.clone();
            y.inv_sign();
            t(changed(&y, flip(s0), i0), "inv_sign", &y);
            let y = x.abs();
            t(changed(&y, Sign::Pos, i0), "abs", &y);
            for s in [Sign::Pos, Sign::Neg] {
                let mut y = x.clone();
                y.set_sign(s);
                t(changed(&y, s, i0), "set_sign", &y);
            }
            for f in [false, true] {
                let mut y = x.clone();
                y.set_inexact(f);
                t(changed(&y, s0, f), "set_inexact", &y);
                t(y.inexact() == (f && nt), "inexact() after set_inexact", &y);
            }
        },
    );
    r.space(
        "set-exponent",
        &[v.len(), es.len()],
        |i| format!("x={} e={}", show(&v[i[0]]), es[i[1]]),
        |i, w| {
            let x = &v[i[0]];
            let e = es[i[1]];
            let mut y = x.clone();
            y.set_exponent(e as Exponent);
            let c = match decode(x) {
                None => {
                    if ident(x, &y) {
                        Ok(false)
                    } else {
                        Err(format!("got {}", show(&y)))
                    }
                }
                Some(d) if d.is_zero() => {
                    if ident(x, &y) {
                        Ok(false)
                    } else {
                        Err(format!("zero changed: {}", show(&y)))
                    }
                }
                Some(d) => {
                    let e0 = x.exponent().unwrap() as i64;
                    let want = Dy::new(d.neg, d.m.clone(), d.e + (e - e0));
                    canon(&y).and_then(|_| {
                        if dy(&y).cmp(&want) == Ordering::Equal && y.mantissa_max_bit_len() == x.mantissa_max_bit_len() && y.inexact() == x.inexact() {
                            Ok(true)
                        } else {
                            Err(format!("got {} want {}", show(&y), want.show()))
                        }
                    })
                }
            };
            w.sub(c, || "set_exponent".into());
        },
    );
}
