//! Elementary functions to about 680 bits by textbook series, the oracle for
//! the mathematical functions. Nothing here is shared with the crate.
use crate::big::Big;
use crate::model::{self as m, Bits};
use core::cmp::Ordering;
use std::sync::OnceLock;

/// working precision, and the relative precision results are good for
const P: i64 = 768;
pub const GOOD: i64 = 700;

/// ± m · 2^e, m truncated to P bits
#[derive(Clone, Debug)]
pub struct F {
    pub neg: bool,
    pub m: Big,
    pub e: i64,
}
impl F {
    pub fn new(neg: bool, m: Big, e: i64) -> F {
        let s = m.bits() - P;
        if s > 0 {
            F { neg, m: m.shr(s), e: e + s }
        } else {
            F { neg, m, e }
        }
    }
    pub fn int(n: i64) -> F {
        F::new(n < 0, Big::from_u64(n.unsigned_abs()), 0)
    }
    pub fn from_bits(b: Bits) -> F {
        let (s, mm, e) = m::dec(b);
        F::new(s, mm, e)
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }
    /// value lies in [2^(top-1), 2^top)
    pub fn top(&self) -> i64 {
        self.m.bits() + self.e
    }
    pub fn neg(mut self) -> F {
        self.neg = !self.neg;
        self
    }
    pub fn abs(mut self) -> F {
        self.neg = false;
        self
    }
    pub fn scale(mut self, n: i64) -> F {
        self.e += n;
        self
    }
    pub fn add(&self, o: &F) -> F {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let (a, b) = if self.top() >= o.top() { (self, o) } else { (o, self) };
        let lo = b.e.min(a.e);
        if a.top() - lo > 4 * P {
            // b is far away: keep P + 64 bits of a's neighbourhood
            let lo = a.top() - 2 * P;
            let (x, y) = (a.m.shift(a.e - lo), b.m.shift(b.e - lo));
            return F::signed(a, x, b, y, lo);
        }
        F::signed(a, a.m.shl(a.e - lo), b, b.m.shl(b.e - lo), lo)
    }
    fn signed(a: &F, x: Big, b: &F, y: Big, lo: i64) -> F {
        if a.neg == b.neg {
            F::new(a.neg, x.add(&y), lo)
        } else if x.cmp(&y) != Ordering::Less {
            F::new(a.neg, x.sub(&y), lo)
        } else {
            F::new(b.neg, y.sub(&x), lo)
        }
    }
    pub fn sub(&self, o: &F) -> F {
        self.add(&o.clone().neg())
    }
    pub fn mul(&self, o: &F) -> F {
        F::new(self.neg != o.neg, self.m.mul(&o.m), self.e + o.e)
    }
    pub fn div(&self, o: &F) -> F {
        let s = P + 4 + o.m.bits() - self.m.bits();
        let s = s.max(0);
        F::new(self.neg != o.neg, self.m.shl(s).div_rem(&o.m).0, self.e - s - o.e)
    }
    pub fn div_int(&self, d: u64) -> F {
        let s = (P + 68 - self.m.bits()).max(0);
        F::new(self.neg, self.m.shl(s).div_rem_u64(d).0, self.e - s)
    }
    pub fn sqrt(&self) -> F {
        let mut s = (2 * P + 8 - self.m.bits()).max(0);
        if (self.e - s) % 2 != 0 {
            s += 1;
        }
        F::new(self.neg, self.m.shl(s).isqrt().0, (self.e - s) / 2)
    }
    pub fn cmp_abs(&self, o: &F) -> Ordering {
        let d = self.clone().abs().sub(&o.clone().abs());
        match (d.is_zero(), d.neg) {
            (true, _) => Ordering::Equal,
            (_, true) => Ordering::Less,
            _ => Ordering::Greater,
        }
    }
    /// the correctly rounded value; None if the precision does not decide it
    pub fn round(&self) -> Option<Bits> {
        if self.is_zero() {
            return Some(m::zero(self.neg));
        }
        let x = self.m.shl((P - self.m.bits()).max(0));
        let e = self.e - (P - self.m.bits()).max(0);
        let d = Big::pow2(x.bits() - GOOD);
        let lo = m::round(self.neg, &x.sub(&d), e, true);
        let hi = m::round(self.neg, &x.add(&d), e, true);
        (lo == hi).then_some(lo)
    }
    /// |got - self| in units of the last place of self
    pub fn ulps(&self, got: Bits) -> f64 {
        if !m::is_fin(got) {
            return f64::INFINITY;
        }
        let d = F::from_bits(got).sub(self).abs();
        if d.is_zero() {
            return 0.0;
        }
        let ulp = (self.top() - 237).max(m::QMIN);
        let x = d.m.shift(53 - d.m.bits());
        let mut v = x.to_u64() as f64;
        let mut k = d.e + d.m.bits() - 53 - ulp;
        while k < 0 && v > 0.0 {
            let s = k.max(-60);
            v *= 2f64.powi(s as i32);
            k -= s;
        }
        while k > 0 && v.is_finite() {
            let s = k.min(60);
            v *= 2f64.powi(s as i32);
            k -= s;
        }
        v
    }
}

/// ⌊π·2^n⌋, give or take a few units (Chudnovsky's series)
fn pi_fixed(n: i64) -> Big {
    let g = n + 64;
    let mut a = Big::pow2(g);
    let (mut pos, mut neg) = (Big::pow2(g).mul_u64(13591409), Big::zero());
    let mut k = 1u64;
    loop {
        a = a.mul_u64(6 * k - 5).mul_u64(2 * k - 1).mul_u64(6 * k - 1);
        a = a.div_rem_u64(k * k * k).0.div_rem_u64(10939058860032000).0;
        if a.is_zero() {
            break;
        }
        let t = a.mul_u64(13591409 + 545140134 * k);
        if k & 1 == 1 {
            neg = neg.add(&t);
        } else {
            pos = pos.add(&t);
        }
        k += 1;
    }
    let s = Big::from_u64(10005).shl(2 * g).isqrt().0;
    // π = 426880·√10005 / sum
    s.mul_u64(426880).shl(g).div_rem(&pos.sub(&neg)).0.shr(g - n)
}
pub fn pi() -> &'static F {
    static X: OnceLock<F> = OnceLock::new();
    X.get_or_init(|| F::new(false, pi_fixed(P + 64), -P - 64))
}
const TOP_N: i64 = 262144 + 1400;
/// ⌊2/π·2^TOP_N⌋
fn two_over_pi() -> &'static Big {
    static X: OnceLock<Big> = OnceLock::new();
    X.get_or_init(|| Big::pow2(2 * TOP_N + 65).div_rem(&pi_fixed(TOP_N + 64)).0)
}
fn atanh_series(y: &F) -> F {
    let y2 = y.mul(y);
    let (mut t, mut s, mut k) = (y.clone(), y.clone(), 1);
    while !t.is_zero() && t.top() > s.top() - P {
        t = t.mul(&y2);
        k += 2;
        s = s.add(&t.div_int(k));
    }
    s
}
pub fn ln2() -> &'static F {
    static X: OnceLock<F> = OnceLock::new();
    X.get_or_init(|| atanh_series(&F::int(1).div_int(3)).scale(1))
}
pub fn ln10() -> &'static F {
    static X: OnceLock<F> = OnceLock::new();
    X.get_or_init(|| ln(&F::int(10)))
}
/// x > 0
pub fn ln(x: &F) -> F {
    let mut e = x.top();
    // 0.7 < y < 1.42
    let mut y = x.clone().scale(-e);
    if y.sub(&F::int(7).div_int(10)).neg {
        e -= 1;
        y = y.scale(1);
    }
    let z = y.sub(&F::int(1)).div(&y.add(&F::int(1)));
    atanh_series(&z).scale(1).add(&ln2().mul(&F::int(e)))
}
/// sine and cosine of a small number
pub fn sin_cos_small(r: &F) -> (F, F) {
    if r.is_zero() {
        return (r.clone(), F::int(1));
    }
    let r2 = r.mul(r);
    let (mut t, mut s, mut k) = (r.clone(), r.clone(), 1u64);
    while t.top() > s.top() - P {
        t = t.mul(&r2).div_int((k + 1) * (k + 2)).neg();
        k += 2;
        s = s.add(&t);
    }
    let (mut t, mut c, mut k) = (F::int(1), F::int(1), 0u64);
    while t.top() > -P {
        t = t.mul(&r2).div_int((k + 1) * (k + 2)).neg();
        k += 2;
        c = c.add(&t);
    }
    (s, c)
}
/// finite x
pub fn sin_cos(x: Bits) -> (F, F) {
    let (neg, mm, e) = m::dec(x);
    let (q, r) = if mm.bits() + e < 0 {
        (0, F::new(false, mm, e))
    } else {
        const FB: i64 = 1300;
        // bits of 2/π with weights 2^-(e-2) .. 2^-(e+FB)
        let w = two_over_pi().shr(TOP_N - (e + FB)).low_bits((FB + e).min(FB + 2) + 8);
        let t = mm.mul(&w).low_bits(FB + 2);
        // nearest integer
        let q = t.add(&Big::pow2(FB - 1)).shr(FB).to_u64();
        let i = Big::from_u64(q).shl(FB);
        let f = if t.cmp(&i) == Ordering::Less {
            F::new(true, i.sub(&t), -FB)
        } else {
            F::new(false, t.sub(&i), -FB)
        };
        (q % 4, f.mul(pi()).scale(-1))
    };
    let (s, c) = sin_cos_small(&r);
    let (s, c) = match q {
        0 => (s, c),
        1 => (c, s.neg()),
        2 => (s.neg(), c.neg()),
        _ => (c.neg(), s),
    };
    (if neg { s.neg() } else { s }, c)
}
pub fn atan(x: &F) -> F {
    if x.is_zero() {
        return x.clone();
    }
    if x.top() > 0 && x.cmp_abs(&F::int(1)) == Ordering::Greater {
        let mut h = pi().clone().scale(-1);
        h.neg = x.neg;
        return h.sub(&atan(&F::int(1).div(x)));
    }
    // three times atan(x) = 2·atan(x / (1 + √(1 + x²)))
    let (mut y, mut n) = (x.clone(), 0);
    while y.top() > -2 {
        y = y.div(&F::int(1).add(&F::int(1).add(&y.mul(&y)).sqrt()));
        n += 1;
    }
    let y2 = y.mul(&y);
    let (mut t, mut s, mut k) = (y.clone(), y.clone(), 1);
    while t.top() > s.top() - P {
        t = t.mul(&y2).neg();
        k += 2;
        s = s.add(&t.div_int(k));
    }
    s.scale(n)
}
/// |x| <= 1
pub fn asin(x: &F) -> F {
    let one = F::int(1);
    let d = one.sub(x).mul(&one.add(x));
    if d.is_zero() {
        let mut h = pi().clone().scale(-1);
        h.neg = x.neg;
        return h;
    }
    atan(&x.div(&d.sqrt()))
}
/// |x| <= 1
pub fn acos(x: &F) -> F {
    let one = F::int(1);
    let s = one.add(x);
    if s.is_zero() {
        return pi().clone();
    }
    atan(&one.sub(x).div(&s).sqrt()).scale(1)
}
/// Euler's number
pub fn e() -> F {
    let (mut t, mut s, mut k) = (F::int(1), F::int(1), 1);
    while t.top() > -P {
        t = t.div_int(k);
        s = s.add(&t);
        k += 1;
    }
    s
}
/// the Euler-Mascheroni constant (Brent and McMillan); good for 700 bits
pub fn gamma() -> F {
    const N: u64 = 130;
    let n2 = F::int((N * N) as i64);
    let (mut t, mut h) = (F::int(1), F::int(0));
    let (mut a, mut b) = (F::int(0), F::int(1));
    let mut k = 1u64;
    loop {
        t = t.mul(&n2).div_int(k).div_int(k);
        h = h.add(&F::int(1).div_int(k));
        a = a.add(&t.mul(&h));
        b = b.add(&t);
        k += 1;
        if t.top() < b.top() - P {
            break;
        }
    }
    a.div(&b).sub(&ln(&F::int(N as i64)))
}
impl F {
    /// the values a result may have if its error is to be below
    /// 0.5 + 2^-8 units of the last place
    pub fn nearest(&self) -> (Bits, Bits) {
        if self.is_zero() {
            return (m::zero(self.neg), m::zero(self.neg));
        }
        let (x, e) = (&self.m, self.e);
        let k = (P - x.bits()).max(0);
        let (x, e) = (x.shl(k), e - k);
        let ulp = (x.bits() + e - 237).max(m::QMIN);
        let d = Big::pow2((ulp - 8 - e).max(0));
        let lo = if x.cmp(&d) != Ordering::Greater { m::zero(self.neg) } else { m::round(self.neg, &x.sub(&d), e, true) };
        (lo, m::round(self.neg, &x.add(&d), e, true))
    }
}
/// For the exponent q: integers m in [2^236, 2^237) for which m·2^q is
/// unusually close to a multiple of π/2 (from the convergents and
/// intermediate fractions of 2^q·2/π)
pub fn near_multiples(q: i64) -> Vec<Big> {
    const N: i64 = 640;
    let n = TOP_N - (q + N);
    assert!(n >= 0);
    let a = two_over_pi().shr(n).low_bits(N);
    let (lim, min) = (Big::pow2(237), Big::pow2(236));
    let mut out = vec![];
    let mut keep = |x: Big| {
        if x.cmp(&min) != Ordering::Less && x.cmp(&lim) == Ordering::Less {
            out.push(x);
        }
    };
    let (mut r0, mut r1) = (Big::pow2(N), a);
    let (mut q0, mut q1) = (Big::zero(), Big::from_u64(1));
    while !r1.is_zero() && q1.cmp(&lim) == Ordering::Less {
        let (t, r) = r0.div_rem(&r1);
        let q2 = t.mul(&q1).add(&q0);
        if q1.cmp(&min) == Ordering::Less && q2.cmp(&min) != Ordering::Less {
            // q1 is the last convergent below 2^236: its multiples and the
            // intermediate fractions
            let u = min.sub(&q0.clone()).div_rem(&q1).0.add_u64(1);
            keep(u.mul(&q1).add(&q0));
            let v = min.div_rem(&q1).0.add_u64(1);
            keep(v.mul(&q1));
            keep(v.add_u64(1).mul(&q1));
        }
        (r0, r1) = (r1, r);
        (q0, q1) = (q1, q2);
        keep(q1.clone());
    }
    out
}
/// For the exponent q: integers m in [2^236, 2^237) for which m·2^q has
/// every order of distance from a multiple of π/2: the closest one plus or
/// minus every convergent's denominator (and its double)
pub fn graded_multiples(q: i64) -> Vec<Big> {
    const N: i64 = 640;
    let a = two_over_pi().shr(TOP_N - (q + N)).low_bits(N);
    let (lim, min) = (Big::pow2(237), Big::pow2(236));
    let inside = |x: &Big| x.cmp(&min) != Ordering::Less && x.cmp(&lim) == Ordering::Less;
    let Some(best) = near_multiples(q).pop() else { return vec![] };
    let mut out = vec![];
    let (mut r0, mut r1) = (Big::pow2(N), a);
    let (mut q0, mut q1) = (Big::zero(), Big::from_u64(1));
    while !r1.is_zero() && q1.cmp(&min) == Ordering::Less {
        for d in [q1.clone(), q1.shl(1)] {
            out.push(best.add(&d));
            if d.cmp(&best) == Ordering::Less {
                out.push(best.sub(&d));
            }
        }
        let (t, r) = r0.div_rem(&r1);
        let q2 = t.mul(&q1).add(&q0);
        (r0, r1) = (r1, r);
        (q0, q1) = (q1, q2);
    }
    out.retain(inside);
    out
}
