//! Alphabets: boundary words, mantissas, exponents.
use crate::oracle::*;
use astro_float_num::{BigFloat, Exponent, Word};
use rug::Integer;

pub const MSB: Word = 1 << (WB - 1);
pub const MAX: Word = Word::MAX;
pub const MIX: Word = 0x9E37_79B9_7F4A_7C15;
pub const MIX2: Word = 0xD1B5_4A32_D192_ED03;

/// top words (MSB set), most interesting first
pub const TOPS: [Word; 14] = [
    MSB,
    MAX,
    MSB | 1,
    MAX - 1,
    MIX,
    0xAAAA_AAAA_AAAA_AAAA,
    0xC000_0000_0000_0000,
    0xFFFF_FFFF_0000_0000,
    0x8000_0000_FFFF_FFFF,
    0xB504_F333_F9DE_6484, // sqrt(2)
    MSB | 2,
    MIX2,
    0x8000_0000_0000_8000,
    0xFFFF_FFFF_FFFF_0000,
];

/// arbitrary words, most interesting first
pub const LOWS: [Word; 14] = [
    0,
    MAX,
    MSB,
    1,
    MSB - 1,
    MAX - 1,
    MIX,
    MSB | 1,
    2,
    0x5555_5555_5555_5555,
    0x0000_0000_FFFF_FFFF,
    0xFFFF_FFFF_0000_0000,
    3,
    0x7FFF_FFFF_FFFF_FFFE,
];

/// Normal mantissas with up to 4 words; the counts say how many tops / low words per length are combined.
pub fn mants(n1: usize, n2: (usize, usize), n3: (usize, usize, usize), n4: (usize, usize, usize, usize)) -> Vec<Vec<Word>> {
    let mut v = vec![];
    for t in &TOPS[..n1.min(TOPS.len())] {
        v.push(vec![*t]);
    }
    for t in &TOPS[..n2.0] {
        for a in &LOWS[..n2.1] {
            v.push(vec![*a, *t]);
        }
    }
    for t in &TOPS[..n3.0] {
        for a in &LOWS[..n3.1] {
            for b in &LOWS[..n3.2] {
                v.push(vec![*b, *a, *t]);
            }
        }
    }
    for t in &TOPS[..n4.0] {
        for a in &LOWS[..n4.1] {
            for b in &LOWS[..n4.2] {
                for c in &LOWS[..n4.3] {
                    v.push(vec![*c, *b, *a, *t]);
                }
            }
        }
    }
    v
}

pub fn nums(m: &[Vec<Word>], e: Exponent) -> Vec<BigFloat> {
    m.iter().map(|w| mk(w, false, e)).collect()
}

pub fn with_exp(b: &BigFloat, e: Exponent) -> BigFloat {
    let (w, _, s, _, i) = b.as_raw_parts().unwrap();
    mk_i(w, s == astro_float_num::Sign::Neg, e, i)
}

/// exponent differences around word boundaries
pub fn dexps(maxw: usize, fine: bool) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for k in 0..=maxw as i64 {
        let offs: &[i64] = if fine { &[-3, -2, -1, 0, 1, 2, 3, 31, 32, 33] } else { &[-2, -1, 0, 1, 2] };
        for o in offs {
            let d = k * WB as i64 + o;
            if d >= 0 {
                v.push(d);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// deterministic multi-word pattern families for large operands
/// kinds: 0 ones, 1 single top bit, 2 top bit + 1, 3 mix, 4 alternating 0/MAX words, 5 MAX with zero low half,
/// 6 words MSB, 7 sparse, 8 words 1, 9 0x5555 pattern with top, 10 zero middle third
pub const NKIND: usize = 11;
pub fn pattern(kind: usize, n: usize) -> Vec<Word> {
    let mut v = vec![0 as Word; n];
    let mut x: u64 = 0x1234_5678_9ABC_DEF1 ^ (n as u64) << 7;
    for (i, w) in v.iter_mut().enumerate() {
        *w = match kind {
            0 => MAX,
            1 => 0,
            2 => 0,
            3 => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x
            }
            4 => {
                if i % 2 == 0 {
                    0
                } else {
                    MAX
                }
            }
            5 => {
                if i < n / 2 {
                    0
                } else {
                    MAX
                }
            }
            6 => MSB,
            7 => {
                if i % 5 == 3 {
                    MSB >> (i % 60)
                } else {
                    0
                }
            }
            8 => 1,
            9 => 0x5555_5555_5555_5555,
            10 => {
                if i >= n / 3 && i < 2 * n / 3 {
                    0
                } else {
                    MAX - 1
                }
            }
            _ => unreachable!(),
        };
    }
    if kind == 2 && n > 0 {
        v[0] |= 1;
    }
    v[n - 1] |= MSB;
    v
}

pub fn dy(b: &BigFloat) -> Dy {
    decode(b).expect("finite")
}

pub fn int(b: &BigFloat) -> Integer {
    dy(b).m
}
