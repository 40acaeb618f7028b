//! Finite alphabets of operands.
use crate::model::{self as m, enc, Bits};

pub const FB: u32 = 236; // fraction bits
pub const BIAS: i64 = 262143;
pub const EXPMAX: i64 = 0x7ffff;

/// 1 << i as a (hi, lo) pair
pub fn bit(i: u32) -> Bits {
    if i >= 128 {
        (1 << (i - 128), 0)
    } else {
        (0, 1 << i)
    }
}
pub fn or(a: Bits, b: Bits) -> Bits {
    (a.0 | b.0, a.1 | b.1)
}
pub fn xor(a: Bits, b: Bits) -> Bits {
    (a.0 ^ b.0, a.1 ^ b.1)
}
/// the n lowest bits set
pub fn mask(n: u32) -> Bits {
    if n == 0 {
        (0, 0)
    } else if n <= 128 {
        (0, u128::MAX >> (128 - n))
    } else {
        (u128::MAX >> (256 - n), u128::MAX)
    }
}
pub const FMASK: Bits = ((1 << 108) - 1, u128::MAX);
pub fn fnot(a: Bits) -> Bits {
    (!a.0 & FMASK.0, !a.1)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    pub fn frac(&mut self) -> Bits {
        (self.u128() & FMASK.0, self.u128())
    }
}

fn uniq(mut v: Vec<Bits>) -> Vec<Bits> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

/// interesting bit positions: word boundaries and both ends
pub fn positions() -> Vec<u32> {
    vec![
        0, 1, 2, 3, 19, 20, 31, 32, 62, 63, 64, 65, 106, 107, 108, 109, 117, 118, 119, 126, 127,
        128, 129, 130, 191, 192, 193, 216, 217, 218, 232, 233, 234, 235,
    ]
}

/// irregular patterns (fixed, not sampled: digits of pi, e, sqrt 2, 1/3, ...)
pub fn irregular() -> Vec<Bits> {
    let mut r = Rng(0x243f6a8885a308d3);
    let mut v = vec![
        (0x555555555555555555555555555 & FMASK.0, 0x55555555555555555555555555555555),
        (0xaaaaaaaaaaaaaaaaaaaaaaaaaaa & FMASK.0, 0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa),
        (0x921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762),
        (0x5bf0a8b1457695355fb8ac404e7, 0xa79e3b1738b079c5a6d2b53c26c8228c),
        (0x6a09e667f3bcc908b2fb1366ea9, 0x57d3e3adec17512775099da2f590b066),
    ];
    for _ in 0..8 {
        v.push(r.frac());
    }
    v
}

/// ~12 fractions
pub fn fracs_s() -> Vec<Bits> {
    uniq(vec![
        (0, 0),
        bit(0),
        fnot((0, 0)),
        fnot(bit(0)),
        bit(235),
        mask(235),
        or(bit(235), bit(0)),
        mask(128),
        bit(128),
        fnot(mask(128)),
        (0x921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762),
        (0x6a09e667f3bcc908b2fb1366ea9, 0x57d3e3adec17512775099da2f590b066),
        (0xaaaaaaaaaaaaaaaaaaaaaaaaaaa & FMASK.0, 0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa),
    ])
}
/// ~ 110 fractions
pub fn fracs_m() -> Vec<Bits> {
    let mut v = fracs_s();
    for p in [0, 1, 2, 63, 64, 107, 108, 126, 127, 128, 129, 191, 192, 217, 234, 235] {
        v.push(bit(p));
        v.push(fnot(bit(p)));
        v.push(mask(p));
        v.push(fnot(mask(p)));
        v.push(or(bit(p), bit(0)));
    }
    v.extend(irregular());
    uniq(v)
}
/// ~ 700 fractions: every bit position in several shapes
pub fn fracs_l() -> Vec<Bits> {
    let mut v = fracs_m();
    for p in 0..FB {
        v.push(bit(p));
        v.push(mask(p));
        v.push(fnot(mask(p)));
        v.push(or(bit(p), bit(0)));
        v.push(fnot(bit(p)));
    }
    uniq(v)
}
/// two-bit fractions: all pairs from `pos`
pub fn fracs_2bit(pos: &[u32]) -> Vec<Bits> {
    let mut v = vec![];
    for (i, &a) in pos.iter().enumerate() {
        for &b in &pos[..i] {
            v.push(or(bit(a), bit(b)));
        }
    }
    v
}

pub fn specials() -> Vec<Bits> {
    let mut v = vec![
        m::ZERO,
        m::ONE,
        m::INF,
        m::NAN,
        (m::INF.0, 1),
        (m::INF.0 | 1, 0),
        (m::INF.0 | FMASK.0, u128::MAX),
        (m::NAN.0, 1),
        (m::NAN.0 | 1, 0),
        (m::INF.0, 1 << 127),
        (0, 1),
        (0, u128::MAX),
        (1, 0),
        (FMASK.0, u128::MAX), // largest subnormal
        (1 << 108, 0),        // smallest normal
        (1 << 108, 1),
        m::MAXF,
        (m::MAXF.0, 0),
        (m::MAXF.0, u128::MAX - 1),
        (0x3ffff << 108, 1),
        (0x3fffe << 108 | FMASK.0, u128::MAX),
        (0x40000 << 108, 0),
    ];
    let n = v.len();
    for i in 0..n {
        v.push(m::neg(v[i]));
    }
    v
}

pub fn both(v: &[Bits]) -> Vec<Bits> {
    v.iter().flat_map(|&x| [x, m::neg(x)]).collect()
}

/// boundary exponents (biased)
pub fn exps_s() -> Vec<i64> {
    vec![0, 1, 2, 237, BIAS - 1, BIAS, BIAS + 1, EXPMAX - 2, EXPMAX - 1]
}
pub fn exps_m() -> Vec<i64> {
    let mut v = vec![0, 1, 2, 3, 118, 119, 235, 236, 237, 238, 239, 474, 1000, 131071, 131072, 131073];
    for d in [-474, -239, -238, -237, -236, -128, -119, -2, -1, 0, 1, 2, 118, 119, 235, 236, 237, 238] {
        v.push(BIAS + d);
    }
    v.extend([393215, 393216, 500000]);
    for d in [1, 2, 3, 118, 235, 236, 237, 238, 239] {
        v.push(EXPMAX - d);
    }
    v.sort();
    v.dedup();
    v
}

pub fn val(e: i64, f: Bits) -> Bits {
    enc(false, e, f)
}

/// cross product of exponents and fractions plus the special values, positive
pub fn cross(es: &[i64], fs: &[Bits]) -> Vec<Bits> {
    let mut v = vec![];
    for &e in es {
        for &f in fs {
            v.push(enc(false, e, f));
        }
    }
    uniq(v)
}
