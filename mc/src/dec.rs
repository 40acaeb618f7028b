//! Decimal <-> binary reference: powers of five to ~1000 bits with an exact
//! fallback, correctly rounded decimal to binary conversion.
use crate::big::Big;
use crate::model::{self as m, Bits};
use std::sync::OnceLock;

const W: i64 = 640;
pub const KMAX: usize = 81000;

/// truncated to W bits: 5^k and 5^-k as m·2^e with relative error < 2^-(W-20)
struct Pows {
    up: Vec<(Big, i64)>,
    down: Vec<(Big, i64)>,
}
static POWS: OnceLock<Pows> = OnceLock::new();
fn pows() -> &'static Pows {
    POWS.get_or_init(|| {
        let mut up = vec![(Big::pow2(W - 1), 1 - W)];
        let mut down = up.clone();
        for _ in 0..KMAX {
            let (b, e) = up.last().unwrap();
            let mut x = b.clone();
            x.mul_u64_assign(5);
            let s = x.bits() - W;
            up.push((x.shr(s), e + s));
            let (b, e) = down.last().unwrap();
            let (q, _) = b.shl(3).div_rem_u64(5);
            let s = q.bits() - W;
            down.push((q.shift(-s), e - 3 + s));
        }
        Pows { up, down }
    })
}
/// truncated 10^k = m·2^e, exact if the second component says so
pub fn pow10_approx(k: i64) -> (Big, i64, bool) {
    let t = pows();
    if k >= 0 {
        let (b, e) = &t.up[k as usize];
        (b.clone(), e + k, k <= 275)
    } else {
        let (b, e) = &t.down[-k as usize];
        (b.clone(), e + k, false)
    }
}
/// 5^k, exact
pub fn pow5(k: u64) -> Big {
    Big::pow(5, k)
}

/// ±d·10^k correctly rounded
pub fn round_dec(s: bool, d: &Big, k: i64) -> Bits {
    if d.is_zero() {
        return m::zero(s);
    }
    let k = k.clamp(-(1 << 42), 1 << 42); // far beyond any number of digits
    // crude range: d·10^k in [2^(bits-1+3k..)..]
    let lo2 = d.bits() - 1 + if k >= 0 { k * 332192 / 100000 } else { k * 332193 / 100000 - 1 };
    if lo2 > m::EMAX + 4 {
        return m::inf(s);
    }
    let hi2 = d.bits() + if k >= 0 { k * 332193 / 100000 + 1 } else { k * 332192 / 100000 };
    if hi2 < m::QMIN - 4 {
        return m::zero(s);
    }
    if k.unsigned_abs() as usize <= KMAX && d.bits() < 100_000 {
        let (b, e, exact) = pow10_approx(k);
        let lo = b.mul(d);
        if exact {
            return m::round(s, &lo.shl(m::P + 8), e - m::P - 8, false);
        }
        // relative error below 2^-(W-20): lo <= value <= lo + lo/2^(W-20)
        let hi = lo.add(&lo.shr(W - 20)).add_u64(1);
        let a = m::round(s, &lo, e, true);
        let c = m::round(s, &hi, e, true);
        if a == c {
            return a;
        }
    }
    round_dec_exact(s, d, k)
}
pub fn round_dec_exact(s: bool, d: &Big, k: i64) -> Bits {
    if k >= 0 {
        let v = d.mul(&pow5(k as u64));
        m::round(s, &v.shl(m::P + 8), k - m::P - 8, false)
    } else {
        m::round_div(s, d, &pow5(k.unsigned_abs()), k)
    }
}

/// literal grammar of f64::from_str
pub enum Lit {
    Empty,
    Invalid,
    Nan,
    Inf(bool),
    Num(bool, Big, i64),
}
pub fn parse(t: &str) -> Lit {
    let b = t.as_bytes();
    if b.is_empty() {
        return Lit::Empty;
    }
    let (s, r) = match b[0] {
        b'-' => (true, &b[1..]),
        b'+' => (false, &b[1..]),
        _ => (false, b),
    };
    for (w, l) in [("nan", 0), ("inf", 1), ("infinity", 1)] {
        if r.eq_ignore_ascii_case(w.as_bytes()) {
            return if l == 0 { Lit::Nan } else { Lit::Inf(s) };
        }
    }
    let n = |r: &[u8]| r.iter().take_while(|c| c.is_ascii_digit()).count();
    let i = n(r);
    let (int, mut r) = r.split_at(i);
    let mut frac: &[u8] = &[];
    if r.first() == Some(&b'.') {
        let f = n(&r[1..]);
        frac = &r[1..1 + f];
        r = &r[1 + f..];
    }
    if int.is_empty() && frac.is_empty() {
        return Lit::Invalid;
    }
    let mut e: i64 = 0;
    if matches!(r.first(), Some(b'e' | b'E')) {
        r = &r[1..];
        let es = match r.first() {
            Some(b'-') => {
                r = &r[1..];
                true
            }
            Some(b'+') => {
                r = &r[1..];
                false
            }
            _ => false,
        };
        let x = n(r);
        if x == 0 {
            return Lit::Invalid;
        }
        for c in &r[..x] {
            e = (e * 10 + (c - b'0') as i64).min(1 << 50);
        }
        if es {
            e = -e;
        }
        r = &r[x..];
    }
    if !r.is_empty() {
        return Lit::Invalid;
    }
    let mut ds = String::from_utf8([int, frac].concat()).unwrap();
    let mut k = e - frac.len() as i64;
    let t = ds.trim_end_matches('0').len();
    k += (ds.len() - t) as i64;
    ds.truncate(t);
    let ds = ds.trim_start_matches('0');
    Lit::Num(s, if ds.is_empty() { Big::zero() } else { Big::from_dec(ds) }, k)
}

/// ⌊m·2^e·10^k⌋ and whether something was cut off
pub fn scaled(m: &Big, e: i64, k: i64) -> (Big, bool) {
    if m.is_zero() {
        return (Big::zero(), false);
    }
    let exact = |m: &Big| {
        if k >= 0 {
            let v = m.mul(&pow5(k as u64));
            let s = e + k;
            (v.shift(s), s < 0 && v.low_bits_nonzero(-s))
        } else {
            let s = e + k;
            let (n, d) = (m.shift(s.max(0)), pow5(-k as u64).shift((-s).max(0)));
            let (q, r) = n.div_rem(&d);
            (q, !r.is_zero())
        }
    };
    if k.abs() <= 120 && (-700..=1200).contains(&e) {
        return exact(m);
    }
    let (b, be, _) = pow10_approx(k);
    let lo = b.mul(m);
    let hi = lo.add(&lo.shr(W - 20)).add_u64(1);
    let s = e + be;
    if s >= 0 || lo.bits() + s > W - 40 {
        return exact(m);
    }
    let is_int = if k >= 0 {
        e + k + m.tz() >= 0
    } else {
        k >= -110 && e + k + m.tz() >= 0 && m.div_rem(&pow5(-k as u64)).1.is_zero()
    };
    let (l, h) = (lo.shr(-s), hi.shr(-s));
    if is_int {
        return (h, false);
    }
    if l == h {
        return (l, true);
    }
    exact(m)
}
/// m·2^e·10^k rounded to an integer, ties to even
pub fn scaled_half_even(m: &Big, e: i64, k: i64) -> Big {
    let (q, inexact) = scaled(m, e + 1, k);
    let h = q.shr(1);
    if q.is_odd() && (inexact || h.is_odd()) {
        h.add_u64(1)
    } else {
        h
    }
}
/// an estimate of ⌊log10(m·2^e)⌋, at most the exact value and at least one less
fn log10_est(m: &Big, e: i64) -> i64 {
    (((m.bits() - 1 + e) as f64) * std::f64::consts::LOG10_2 - 1e-9).floor() as i64
}
/// shortest decimal d·10^k that identifies the value, closest to it; two
/// answers if the value lies in the middle
pub fn shortest(x: Bits) -> Vec<(Big, i64)> {
    let (_, m, e) = m::dec(x);
    let even = !m.is_odd();
    let narrow = m.bits() == 237 && m.tz() == 236 && e > m::QMIN;
    let m4 = m.shl(2);
    let e = e - 2;
    let k0 = 76 - log10_est(&m4, e);
    let (mut l, li) = scaled(&m4.sub(&Big::from_u64(if narrow { 1 } else { 2 })), e, k0);
    if li || !even {
        l = l.add_u64(1);
    }
    let (mut u, ui) = scaled(&m4.add_u64(2), e, k0);
    if !ui && !even {
        u = u.sub(&Big::from_u64(1));
    }
    let (v, vi) = scaled(&m4, e, k0);
    // multiples of 10^j in [l, u]
    let (mut lj, mut uj, mut j) = (l, u, 0);
    loop {
        let (a, r) = lj.div_rem_u64(10);
        let a = if r > 0 { a.add_u64(1) } else { a };
        let b = uj.div_rem_u64(10).0;
        if a.cmp(&b) == std::cmp::Ordering::Greater || b.is_zero() {
            break;
        }
        lj = a;
        uj = b;
        j += 1;
    }
    let p = Big::pow(10, j);
    let (q, r) = v.div_rem(&p);
    let r2 = r.shl(1);
    use std::cmp::Ordering::*;
    let c = match r2.cmp(&p) {
        Equal if vi => Greater,
        c => c,
    };
    // 76 digits are more than needed (and below, 10^j is even)
    assert!(j > 0, "interval too narrow");
    let q1 = q.add_u64(1);
    let ok = |t: &Big| t.cmp(&lj) != Less && t.cmp(&uj) != Greater;
    let mut c: Vec<Big> = match c {
        Less => vec![q, q1],
        Greater => vec![q1, q],
        Equal => {
            if ok(&q) && ok(&q1) {
                return [q, q1].into_iter().map(|t| norm10(t, j as i64 - k0)).collect();
            }
            vec![q, q1]
        }
    };
    c.retain(ok);
    vec![norm10(c.swap_remove(0), j as i64 - k0)]
}
fn norm10(mut d: Big, mut k: i64) -> (Big, i64) {
    loop {
        let (q, r) = d.div_rem_u64(10);
        if r != 0 {
            return (d, k);
        }
        d = q;
        k += 1;
    }
}
/// d.ddd (p digits behind the point) × 10^exp, ties to even
pub fn sci(x: Bits, p: usize) -> (String, i64) {
    let (_, m, e) = m::dec(x);
    let mut x10 = log10_est(&m, e);
    // is the estimate one too low?
    if scaled(&m, e, -x10 - 1).0.bits() > 0 {
        x10 += 1;
    }
    let t = scaled_half_even(&m, e, p as i64 - x10).to_dec();
    if t.len() > p + 1 {
        return (t[..p + 1].to_string(), x10 + 1);
    }
    assert_eq!(t.len(), p + 1);
    (t, x10)
}
/// fixed point, p digits behind the point, ties to even
pub fn fixed(x: Bits, p: usize) -> String {
    let (_, m, e) = m::dec(x);
    if e >= 0 {
        let t = m.shl(e).to_dec();
        return if p > 0 { format!("{t}.{}", "0".repeat(p)) } else { t };
    }
    let t = if m.bits() + e < -400 { "0".to_string() } else { scaled_half_even(&m, e, p as i64).to_dec() };
    let t = if t.len() <= p { format!("{}{t}", "0".repeat(p + 1 - t.len())) } else { t };
    let n = t.len() - p;
    if p > 0 {
        format!("{}.{}", &t[..n], &t[n..])
    } else {
        t
    }
}
/// plain layout of d·10^k
pub fn plain(d: &Big, k: i64) -> String {
    let t = d.to_dec();
    if k >= 0 {
        return format!("{t}{}", "0".repeat(k as usize));
    }
    let n = t.len() as i64 + k;
    if n > 0 {
        format!("{}.{}", &t[..n as usize], &t[n as usize..])
    } else {
        format!("0.{}{t}", "0".repeat(-n as usize))
    }
}
