//! Boring arbitrary-precision natural numbers (little-endian u64 limbs, no
//! trailing zero limbs). Everything the reference model computes goes through
//! this file; nothing here is shared with the crate under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Big(pub Vec<u64>);

impl Big {
    #[inline]
    pub fn zero() -> Big {
        Big(Vec::new())
    }
    #[inline]
    pub fn from_u64(x: u64) -> Big {
        if x == 0 {
            Big(vec![])
        } else {
            Big(vec![x])
        }
    }
    #[inline]
    pub fn from_u128(x: u128) -> Big {
        Big::norm(vec![x as u64, (x >> 64) as u64])
    }
    #[inline]
    pub fn from_hilo(hi: u128, lo: u128) -> Big {
        Big::norm(vec![
            lo as u64,
            (lo >> 64) as u64,
            hi as u64,
            (hi >> 64) as u64,
        ])
    }
    #[inline]
    fn norm(mut v: Vec<u64>) -> Big {
        while let Some(&0) = v.last() {
            v.pop();
        }
        Big(v)
    }
    pub fn to_hilo(&self) -> (u128, u128) {
        let g = |i: usize| *self.0.get(i).unwrap_or(&0) as u128;
        debug_assert!(self.0.len() <= 4);
        (g(2) | g(3) << 64, g(0) | g(1) << 64)
    }
    pub fn to_u64(&self) -> u64 {
        assert!(self.0.len() <= 1);
        *self.0.first().unwrap_or(&0)
    }
    #[inline]
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    #[inline]
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |x| x & 1 == 1)
    }
    #[inline]
    pub fn bits(&self) -> i64 {
        match self.0.last() {
            None => 0,
            Some(&t) => self.0.len() as i64 * 64 - t.leading_zeros() as i64,
        }
    }
    #[inline]
    pub fn bit(&self, i: i64) -> bool {
        if i < 0 {
            return false;
        }
        let (w, b) = ((i / 64) as usize, i % 64);
        self.0.get(w).map_or(false, |x| x >> b & 1 == 1)
    }
    pub fn tz(&self) -> i64 {
        for (i, &x) in self.0.iter().enumerate() {
            if x != 0 {
                return i as i64 * 64 + x.trailing_zeros() as i64;
            }
        }
        0
    }
    pub fn pow2(n: i64) -> Big {
        let mut v = vec![0u64; (n / 64) as usize + 1];
        v[(n / 64) as usize] = 1 << (n % 64);
        Big(v)
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Big) -> Big {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut v = Vec::with_capacity(a.0.len() + 1);
        let mut c = 0u64;
        for i in 0..a.0.len() {
            let y = if i < b.0.len() { b.0[i] } else { 0 };
            let t = a.0[i] as u128 + y as u128 + c as u128;
            v.push(t as u64);
            c = (t >> 64) as u64;
        }
        if c != 0 {
            v.push(c);
        }
        Big(v)
    }
    pub fn add_u64(&self, y: u64) -> Big {
        let mut v = self.0.clone();
        let mut c = y;
        for x in v.iter_mut() {
            let (r, o) = x.overflowing_add(c);
            *x = r;
            c = o as u64;
            if c == 0 {
                break;
            }
        }
        if c != 0 {
            v.push(c);
        }
        Big(v)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        let mut v = self.0.clone();
        let mut b = 0u64;
        for i in 0..v.len() {
            let y = if i < o.0.len() { o.0[i] } else { 0 };
            let (t, b1) = v[i].overflowing_sub(y);
            let (t, b2) = t.overflowing_sub(b);
            v[i] = t;
            b = (b1 | b2) as u64;
            if b == 0 && i >= o.0.len() {
                break;
            }
        }
        assert!(b == 0, "Big::sub underflow");
        Big::norm(v)
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut v = vec![0u64; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &y) in o.0.iter().enumerate() {
                let t = x as u128 * y as u128 + v[i + j] as u128 + c as u128;
                v[i + j] = t as u64;
                c = (t >> 64) as u64;
            }
            v[i + o.0.len()] = c;
        }
        Big::norm(v)
    }
    pub fn mul_u64(&self, y: u64) -> Big {
        let mut v = Vec::with_capacity(self.0.len() + 1);
        let mut c = 0u64;
        for &x in &self.0 {
            let t = x as u128 * y as u128 + c as u128;
            v.push(t as u64);
            c = (t >> 64) as u64;
        }
        v.push(c);
        Big::norm(v)
    }
    pub fn mul_u64_assign(&mut self, y: u64) {
        let mut c = 0u64;
        for x in self.0.iter_mut() {
            let t = *x as u128 * y as u128 + c as u128;
            *x = t as u64;
            c = (t >> 64) as u64;
        }
        if c != 0 {
            self.0.push(c);
        }
    }
    pub fn shl(&self, n: i64) -> Big {
        debug_assert!(n >= 0);
        if self.is_zero() {
            return Big::zero();
        }
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        let mut v = vec![0u64; w];
        v.reserve(self.0.len() + 1);
        if b == 0 {
            v.extend_from_slice(&self.0);
        } else {
            let mut c = 0u64;
            for &x in &self.0 {
                v.push(x << b | c);
                c = x >> (64 - b);
            }
            if c != 0 {
                v.push(c);
            }
        }
        Big(v)
    }
    pub fn shr(&self, n: i64) -> Big {
        debug_assert!(n >= 0);
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        if w >= self.0.len() {
            return Big::zero();
        }
        let mut v = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let lo = self.0[i] >> b;
            let hi = if b > 0 && i + 1 < self.0.len() {
                self.0[i + 1] << (64 - b)
            } else {
                0
            };
            v.push(lo | hi);
        }
        Big::norm(v)
    }
    /// shift by a signed amount; negative = right shift (floor)
    pub fn shift(&self, n: i64) -> Big {
        if n >= 0 {
            self.shl(n)
        } else {
            self.shr(-n)
        }
    }
    /// are any of the n lowest bits set?
    pub fn low_bits_nonzero(&self, n: i64) -> bool {
        !self.is_zero() && n > 0 && self.tz() < n
    }
    /// the n lowest bits
    pub fn low_bits(&self, n: i64) -> Big {
        let w = (n / 64) as usize;
        let b = n % 64;
        let mut v: Vec<u64> = self.0.iter().take(w + 1).cloned().collect();
        if v.len() > w {
            v[w] &= if b == 0 { 0 } else { (1u64 << b) - 1 };
        }
        Big::norm(v)
    }
    pub fn div_rem_u64(&self, d: u64) -> (Big, u64) {
        let mut v = self.0.clone();
        let mut r = 0u64;
        for x in v.iter_mut().rev() {
            let t = (r as u128) << 64 | *x as u128;
            *x = (t / d as u128) as u64;
            r = (t % d as u128) as u64;
        }
        (Big::norm(v), r)
    }
    /// Knuth algorithm D
    pub fn div_rem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let (q, r) = self.div_rem_u64(d.0[0]);
            return (q, Big::from_u64(r));
        }
        let s = d.0.last().unwrap().leading_zeros() as i64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        if u.len() == self.0.len() {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u64; m + 1];
        let (v1, v0) = (v[n - 1] as u128, v[n - 2] as u128);
        for j in (0..=m).rev() {
            let num = (u[j + n] as u128) << 64 | u[j + n - 1] as u128;
            let mut qh = num / v1;
            let mut rh = num % v1;
            while qh >> 64 != 0 || qh * v0 > (rh << 64 | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v1;
                if rh >> 64 != 0 {
                    break;
                }
            }
            let mut borrow = 0u64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u128 + carry as u128;
                carry = (p >> 64) as u64;
                let (t, b1) = u[i + j].overflowing_sub(p as u64);
                let (t, b2) = t.overflowing_sub(borrow);
                u[i + j] = t;
                borrow = b1 as u64 + b2 as u64;
            }
            let (t, b1) = u[j + n].overflowing_sub(carry);
            let (t, b2) = t.overflowing_sub(borrow);
            u[j + n] = t;
            if b1 || b2 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u128 + v[i] as u128 + c as u128;
                    u[i + j] = t as u64;
                    c = (t >> 64) as u64;
                }
                u[j + n] = u[j + n].wrapping_add(c);
            }
            q[j] = qh as u64;
        }
        u.truncate(n);
        (Big::norm(q), Big::norm(u).shr(s))
    }
    /// floor of the square root, and whether it is inexact
    pub fn isqrt(&self) -> (Big, bool) {
        if self.is_zero() {
            return (Big::zero(), false);
        }
        // Newton from above
        let mut x = Big::pow2((self.bits() + 1) / 2);
        loop {
            let y = x.add(&self.div_rem(&x).0).shr(1);
            if y.cmp(&x) != Ordering::Less {
                break;
            }
            x = y;
        }
        let ex = x.mul(&x).cmp(self) != Ordering::Equal;
        (x, ex)
    }
    pub fn pow(base: u64, mut e: u64) -> Big {
        let mut r = Big::from_u64(1);
        let mut b = Big::from_u64(base);
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    /// parse ascii decimal digits
    pub fn from_dec(s: &str) -> Big {
        let b = s.as_bytes();
        let mut r = Big::zero();
        for ch in b.chunks(19) {
            let mut t = 0u64;
            let mut p = 1u64;
            for &c in ch {
                assert!(c.is_ascii_digit());
                t = t * 10 + (c - b'0') as u64;
                p = p.wrapping_mul(10);
            }
            // 10^19 < 2^64
            r.mul_u64_assign(p);
            r = r.add_u64(t);
        }
        r
    }
    pub fn to_dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, r) = x.div_rem_u64(10_000_000_000_000_000_000);
            parts.push(r);
            x = q;
        }
        let mut s = format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:019}", p));
        }
        s
    }
}
