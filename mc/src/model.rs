//! Reference model of IEEE 754 binary256: exact dyadic arithmetic followed by
//! one rounding step. Independent of the implementation.
use crate::big::Big;
use std::cmp::Ordering;

/// (hi, lo) of the interchange encoding
pub type Bits = (u128, u128);

pub const P: i64 = 237;
pub const QMIN: i64 = -262378; // exponent of the smallest subnormal
pub const EMAX: i64 = 262143;
pub const BIAS: i64 = 262143;
pub const HI_FRAC: u32 = 108;
pub const NAN: Bits = (0x7ffff800000000000000000000000000, 0);
pub const INF: Bits = (0x7ffff000000000000000000000000000, 0);
pub const ZERO: Bits = (0, 0);
pub const ONE: Bits = (0x3ffff000000000000000000000000000, 0);
pub const SIGN: u128 = 1 << 127;
pub const MAXF: Bits = (0x7fffefffffffffffffffffffffffffff, u128::MAX);

#[inline]
pub fn neg(b: Bits) -> Bits {
    (b.0 ^ SIGN, b.1)
}
#[inline]
pub fn abs(b: Bits) -> Bits {
    (b.0 & !SIGN, b.1)
}
#[inline]
pub fn sgn(b: Bits) -> bool {
    b.0 & SIGN != 0
}
#[inline]
pub fn is_nan(b: Bits) -> bool {
    let a = abs(b);
    a > INF
}
#[inline]
pub fn is_inf(b: Bits) -> bool {
    abs(b) == INF
}
#[inline]
pub fn is_zero(b: Bits) -> bool {
    abs(b) == (0, 0)
}
#[inline]
pub fn is_fin(b: Bits) -> bool {
    abs(b) < INF
}
pub fn bexp(b: Bits) -> i64 {
    (abs(b).0 >> HI_FRAC) as i64
}
pub fn frac(b: Bits) -> Bits {
    (b.0 & ((1 << HI_FRAC) - 1), b.1)
}
/// assemble an encoding from sign, biased exponent, fraction field
pub fn enc(s: bool, be: i64, f: Bits) -> Bits {
    (((s as u128) << 127) | ((be as u128) << HI_FRAC) | (f.0 & ((1 << HI_FRAC) - 1)), f.1)
}
pub fn inf(s: bool) -> Bits {
    if s {
        neg(INF)
    } else {
        INF
    }
}
pub fn zero(s: bool) -> Bits {
    if s {
        neg(ZERO)
    } else {
        ZERO
    }
}
pub fn one(s: bool) -> Bits {
    if s {
        neg(ONE)
    } else {
        ONE
    }
}

/// exact value of a finite number: (negative, m, e) = ±m·2^e
pub fn dec(b: Bits) -> (bool, Big, i64) {
    let be = bexp(b);
    let f = frac(b);
    if be == 0 {
        (sgn(b), Big::from_hilo(f.0, f.1), QMIN)
    } else {
        (sgn(b), Big::from_hilo(f.0 | 1 << HI_FRAC, f.1), QMIN + be - 1)
    }
}

/// round ±(m + (sticky ? epsilon : 0))·2^e to nearest, ties to even
pub fn round(s: bool, m: &Big, e: i64, sticky: bool) -> Bits {
    if m.is_zero() {
        // an epsilon alone: far below half the smallest subnormal by construction
        return zero(s);
    }
    let n = m.bits();
    // exponent of the result's quantum
    let q = (e + n - P).max(QMIN);
    let (mut r, up);
    if q <= e {
        r = m.shl(e - q);
        // sticky is below the quantum: callers guarantee enough bits
        assert!(!sticky || e - q == 0, "model: sticky with too few bits");
        up = false;
        // sticky with q == e: less than half a unit is not guaranteed, so forbid
        assert!(!sticky, "model: sticky with no guard bits");
    } else {
        let d = q - e;
        r = m.shr(d);
        let half = m.bit(d - 1);
        let rest = m.low_bits_nonzero(d - 1) || sticky;
        up = half && (rest || r.is_odd());
    }
    if up {
        r = r.add_u64(1);
    }
    pack(s, &r, q)
}

/// r·2^q with r < 2^P + 1, q >= QMIN, exactly representable unless overflow
fn pack(s: bool, r: &Big, q: i64) -> Bits {
    if r.is_zero() {
        return zero(s);
    }
    let (mut r, mut q) = (r.clone(), q);
    if r.bits() == P + 1 {
        r = r.shr(1);
        q += 1;
    }
    if r.bits() == P {
        let be = q - QMIN + 1;
        if be >= 0x7ffff {
            return inf(s);
        }
        let (hi, lo) = r.to_hilo();
        enc(s, be, (hi, lo))
    } else {
        debug_assert!(q == QMIN);
        let (hi, lo) = r.to_hilo();
        enc(s, 0, (hi, lo))
    }
}

/// exact signed sum of two dyadics
fn dyadic_add(a: (bool, Big, i64), b: (bool, Big, i64)) -> (bool, Big, i64) {
    let e = a.2.min(b.2);
    let x = a.1.shl(a.2 - e);
    let y = b.1.shl(b.2 - e);
    if a.0 == b.0 {
        (a.0, x.add(&y), e)
    } else {
        match x.cmp(&y) {
            Ordering::Equal => (false, Big::zero(), e),
            Ordering::Greater => (a.0, x.sub(&y), e),
            Ordering::Less => (b.0, y.sub(&x), e),
        }
    }
}

/// replace a non-zero operand that is absurdly small relative to the other by
/// a value of the same sign with the same rounding effect
fn clamp_gap(a: (bool, Big, i64), b: (bool, Big, i64)) -> ((bool, Big, i64), (bool, Big, i64)) {
    if a.1.is_zero() || b.1.is_zero() {
        return (a, b);
    }
    let ta = a.2 + a.1.bits();
    let tb = b.2 + b.1.bits();
    if ta < tb {
        let (b, a) = clamp_gap(b, a);
        return (a, b);
    }
    // decision points of the rounding of a: multiples of 2^d
    let d = (a.2.min(ta - P - 2)).min(QMIN - 2).max(a.2.min(ta - P - 2) - 4);
    let d = d.min(a.2) - 8;
    if tb < d {
        (a, (b.0, Big::from_u64(1), d - 1))
    } else {
        (a, b)
    }
}

pub fn add(a: Bits, b: Bits) -> Bits {
    if is_nan(a) || is_nan(b) {
        return NAN;
    }
    match (is_inf(a), is_inf(b)) {
        (true, true) => return if sgn(a) == sgn(b) { a } else { NAN },
        (true, false) => return a,
        (false, true) => return b,
        _ => {}
    }
    if is_zero(a) && is_zero(b) {
        return zero(sgn(a) && sgn(b));
    }
    let (x, y) = clamp_gap(dec(a), dec(b));
    let (s, m, e) = dyadic_add(x, y);
    if m.is_zero() {
        return ZERO;
    }
    round(s, &m, e, false)
}
pub fn sub(a: Bits, b: Bits) -> Bits {
    add(a, neg(b))
}
pub fn mul(a: Bits, b: Bits) -> Bits {
    if is_nan(a) || is_nan(b) {
        return NAN;
    }
    let s = sgn(a) ^ sgn(b);
    if is_inf(a) || is_inf(b) {
        return if is_zero(a) || is_zero(b) { NAN } else { inf(s) };
    }
    if is_zero(a) || is_zero(b) {
        return zero(s);
    }
    let (x, y) = (dec(a), dec(b));
    round(s, &x.1.mul(&y.1), x.2 + y.2, false)
}
pub fn div(a: Bits, b: Bits) -> Bits {
    if is_nan(a) || is_nan(b) {
        return NAN;
    }
    let s = sgn(a) ^ sgn(b);
    match (is_inf(a), is_inf(b)) {
        (true, true) => return NAN,
        (true, false) => return inf(s),
        (false, true) => return zero(s),
        _ => {}
    }
    match (is_zero(a), is_zero(b)) {
        (true, true) => return NAN,
        (true, false) => return zero(s),
        (false, true) => return inf(s),
        _ => {}
    }
    let (x, y) = (dec(a), dec(b));
    round_div(s, &x.1, &y.1, x.2 - y.2)
}
/// round ±(n/d)·2^e
pub fn round_div(s: bool, n: &Big, d: &Big, e: i64) -> Bits {
    if n.is_zero() {
        return zero(s);
    }
    let k = (P + 3 + d.bits() - n.bits()).max(0);
    let (q, r) = n.shl(k).div_rem(d);
    // append the sticky as an explicit low bit
    let m = q.shl(1).add_u64(!r.is_zero() as u64);
    round(s, &m, e - k - 1, false)
}
/// floating remainder with truncated quotient; result has the sign of a
pub fn rem(a: Bits, b: Bits) -> Bits {
    if is_nan(a) || is_nan(b) || is_inf(a) || is_zero(b) {
        return NAN;
    }
    if is_inf(b) || is_zero(a) {
        return a;
    }
    let (x, y) = (dec(a), dec(b));
    // common exponent
    let r;
    let e;
    if x.2 >= y.2 {
        let p = pow2_mod(x.2 - y.2, &y.1);
        r = x.1.mul(&p).div_rem(&y.1).1;
        e = y.2;
    } else {
        let d = y.2 - x.2;
        if d > 300 {
            r = x.1.clone();
        } else {
            r = x.1.div_rem(&y.1.shl(d)).1;
        }
        e = x.2;
    }
    round(x.0, &r, e, false)
}
fn pow2_mod(n: i64, m: &Big) -> Big {
    if n < 512 {
        return Big::pow2(n).div_rem(m).1;
    }
    let h = pow2_mod(n / 2, m);
    let mut r = h.mul(&h);
    if n & 1 == 1 {
        r = r.shl(1);
    }
    r.div_rem(m).1
}
pub fn fma(a: Bits, b: Bits, c: Bits) -> Bits {
    if is_nan(a) || is_nan(b) || is_nan(c) {
        return NAN;
    }
    let s = sgn(a) ^ sgn(b);
    if is_inf(a) || is_inf(b) {
        if is_zero(a) || is_zero(b) {
            return NAN;
        }
        if is_inf(c) && sgn(c) != s {
            return NAN;
        }
        return inf(s);
    }
    if is_inf(c) {
        return c;
    }
    if is_zero(a) || is_zero(b) {
        return if is_zero(c) { zero(s && sgn(c)) } else { c };
    }
    let (x, y) = (dec(a), dec(b));
    let p = (s, x.1.mul(&y.1), x.2 + y.2);
    if is_zero(c) {
        return round(s, &p.1, p.2, false);
    }
    let (p, z) = clamp_gap(p, dec(c));
    let (s, m, e) = dyadic_add(p, z);
    if m.is_zero() {
        return ZERO;
    }
    round(s, &m, e, false)
}
pub fn sos(a: Bits, b: Bits) -> Bits {
    // an infinite leg makes the sum infinite unless the other is NaN
    if is_nan(a) || is_nan(b) {
        return NAN;
    }
    if is_inf(a) || is_inf(b) {
        return INF;
    }
    let f = |v: Bits| {
        let (_, m, e) = dec(v);
        (false, m.mul(&m), 2 * e)
    };
    if is_zero(a) && is_zero(b) {
        return ZERO;
    }
    let (x, y) = clamp_gap(f(a), f(b));
    let (s, m, e) = dyadic_add(x, y);
    round(s, &m, e, false)
}
pub fn sqrt(a: Bits) -> Bits {
    if is_nan(a) || is_zero(a) {
        return a;
    }
    if sgn(a) {
        return NAN;
    }
    if is_inf(a) {
        return a;
    }
    let (_, m, e) = dec(a);
    let k = (2 * P + 8 - m.bits()).max(0);
    let k = if (e - k) & 1 != 0 { k + 1 } else { k };
    let (q, inx) = m.shl(k).isqrt();
    let m = q.shl(1).add_u64(inx as u64);
    round(false, &m, (e - k) / 2 - 1, false)
}
/// a·2^n
pub fn scale(a: Bits, n: i64) -> Bits {
    if !is_fin(a) || is_zero(a) {
        return a;
    }
    let (s, m, e) = dec(a);
    let mut e = e + n;
    if e > EMAX + 10 {
        e = EMAX + 10;
    }
    if e < QMIN - 1000 {
        e = QMIN - 1000;
    }
    round(s, &m, e, false)
}

pub fn key(a: Bits) -> (bool, u128, u128) {
    // monotone key for totalOrder
    if sgn(a) {
        (false, !a.0, !a.1)
    } else {
        (true, a.0, a.1)
    }
}
pub fn total_cmp(a: Bits, b: Bits) -> Ordering {
    key(a).cmp(&key(b))
}
pub fn partial_cmp(a: Bits, b: Bits) -> Option<Ordering> {
    if is_nan(a) || is_nan(b) {
        return None;
    }
    if is_zero(a) && is_zero(b) {
        return Some(Ordering::Equal);
    }
    // via the exact values, not via the encoding
    let val = |v: Bits| -> (i32, i64, Big, i64) {
        if is_inf(v) {
            return (if sgn(v) { -1 } else { 1 }, i64::MAX, Big::zero(), 0);
        }
        if is_zero(v) {
            return (0, 0, Big::zero(), 0);
        }
        let (s, m, e) = dec(v);
        (if s { -1 } else { 1 }, e + m.bits(), m, e)
    };
    let (x, y) = (val(a), val(b));
    if x.0 != y.0 {
        return Some(x.0.cmp(&y.0));
    }
    let mag = if x.1 != y.1 {
        x.1.cmp(&y.1)
    } else {
        let e = x.3.min(y.3);
        x.2.shl(x.3 - e).cmp(&y.2.shl(y.3 - e))
    };
    Some(if x.0 < 0 { mag.reverse() } else { mag })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rm {
    Trunc,
    Floor,
    Ceil,
    HalfAway,
    HalfEven,
}
/// round to an integral value; keeps the sign of the argument on zero results
pub fn rint(a: Bits, rm: Rm) -> Bits {
    if !is_fin(a) || is_zero(a) {
        return a;
    }
    let (s, m, e) = dec(a);
    if e >= 0 {
        return a;
    }
    let d = -e;
    let ip = if d > 300 { Big::zero() } else { m.shr(d) };
    let half = d <= 300 && m.bit(d - 1);
    let rest = if d > 300 { true } else { m.low_bits_nonzero(d - 1) };
    let inx = half || rest;
    let up = match rm {
        Rm::Trunc => false,
        Rm::Floor => s && inx,
        Rm::Ceil => !s && inx,
        Rm::HalfAway => half,
        Rm::HalfEven => half && (rest || ip.is_odd()),
    };
    let r = if up { ip.add_u64(1) } else { ip };
    round(s, &r, 0, false)
}
pub fn fract(a: Bits) -> Bits {
    if !is_fin(a) {
        return NAN;
    }
    let (s, m, e) = dec(a);
    if e >= 0 {
        return zero(s);
    }
    let d = -e;
    let f = if d > 300 { m } else { m.low_bits(d) };
    if f.is_zero() {
        return zero(s);
    }
    round(s, &f, e, false)
}
pub fn ulp(a: Bits) -> Bits {
    if !is_fin(a) {
        return NAN;
    }
    let be = bexp(a).max(1);
    round(false, &Big::from_u64(1), QMIN + be - 1, false)
}
