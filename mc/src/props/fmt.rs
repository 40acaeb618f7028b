//! F01 shortest digits, F02 fixed precision, F03 layout flags, F04 round trip

use crate::big::Big;
use crate::alpha::*;
use crate::case::{bt, fb, parse_bits, show, Case, Ext, Out};
use crate::dec;
use crate::model::{self as m, enc, Bits};
use crate::run::{Ctx, Local};
use f256::f256;
use std::fmt::{Display, LowerExp, UpperExp, Write};

/// flags: alignment with fill, sign, zero
pub const FLAGS: &[&str] = &[
    "-", "<", "^", ">", "*<", "*^", "*>", "+", "<+", "^+", ">+", "*<+", "*^+", "*>+", "0", "<0", "^0",
    ">0", "*<0", "*^0", "*>0", "+0", "<+0", "^+0", ">+0", "*<+0", "*^+0", "*>+0", "#", "é^",
];
macro_rules! with_flags {
    ($o:expr, $x:expr, $f:expr, $p:expr, $w:expr, $ty:literal; $($n:literal = $l:literal),*) => {
        match ($f, $p, $w) {
            $(
                ($n, None, None) => write!($o, concat!("{:", $l, $ty, "}"), $x),
                ($n, Some(p), None) => write!($o, concat!("{:", $l, ".*", $ty, "}"), p, $x),
                ($n, None, Some(w)) => write!($o, concat!("{:", $l, "w$", $ty, "}"), $x, w = w),
                ($n, Some(p), Some(w)) => write!($o, concat!("{:", $l, "w$.p$", $ty, "}"), $x, w = w, p = p),
            )*
            _ => unreachable!(),
        }
    };
    ($o:expr, $x:expr, $f:expr, $p:expr, $w:expr, $ty:literal) => {
        with_flags!($o, $x, $f, $p, $w, $ty; "-" = "", "<" = "<", "^" = "^", ">" = ">", "*<" = "*<",
            "*^" = "*^", "*>" = "*>", "+" = "+", "<+" = "<+", "^+" = "^+", ">+" = ">+",
            "*<+" = "*<+", "*^+" = "*^+", "*>+" = "*>+", "0" = "0", "<0" = "<0", "^0" = "^0",
            ">0" = ">0", "*<0" = "*<0", "*^0" = "*^0", "*>0" = "*>0", "+0" = "+0",
            "<+0" = "<+0", "^+0" = "^+0", ">+0" = ">+0", "*<+0" = "*<+0", "*^+0" = "*^+0",
            "*>+0" = "*>+0", "#" = "#", "é^" = "é^")
    };
}
fn render_to<T: Display + LowerExp + UpperExp>(o: &mut dyn Write, x: &T, ty: &str, f: &str, p: Option<usize>, w: Option<usize>) -> std::fmt::Result {
    match ty {
        "d" => with_flags!(o, x, f, p, w, ""),
        "e" => with_flags!(o, x, f, p, w, "e"),
        _ => with_flags!(o, x, f, p, w, "E"),
    }
}
fn render<T: Display + LowerExp + UpperExp>(x: &T, ty: &str, f: &str, p: Option<usize>, w: Option<usize>) -> String {
    let mut t = String::new();
    match render_to(&mut t, x, ty, f, p, w) {
        Ok(()) => t,
        Err(_) => format!("error after {t:?}"),
    }
}
#[derive(Clone, Copy)]
pub struct Spec<'a> {
    ty: &'a str,
    f: &'a str,
    p: Option<usize>,
    w: Option<usize>,
}
impl Spec<'_> {
    fn text(&self) -> String {
        let n = |x: Option<usize>| x.map_or("-".to_string(), |x| x.to_string());
        format!("{} {} {} {}", self.ty, self.f, n(self.p), n(self.w))
    }
}
fn parse_spec(a: &str) -> (Spec<'_>, &str) {
    let mut w = a.splitn(5, ' ');
    let ty = w.next().unwrap();
    let f = w.next().unwrap();
    let p = w.next().unwrap().parse().ok();
    let wd = w.next().unwrap().parse().ok();
    (Spec { ty, f, p, w: wd }, w.next().unwrap())
}
fn pad(s: &Spec, x: Bits, body: String) -> String {
    let nan = m::is_nan(x);
    let sign = if nan {
        ""
    } else if m::sgn(x) {
        "-"
    } else if s.f.contains('+') {
        "+"
    } else {
        ""
    };
    let len = sign.len() + body.len();
    let n = s.w.unwrap_or(0).saturating_sub(len);
    if s.f.contains('0') && !nan {
        return format!("{sign}{}{body}", "0".repeat(n));
    }
    let fill = s.f.chars().next().filter(|c| !"-<^>+0#".contains(*c)).unwrap_or(' ');
    let l = if s.f.contains('<') {
        0
    } else if s.f.contains('^') {
        n / 2
    } else {
        n
    };
    let rep = |n: usize| std::iter::repeat(fill).take(n).collect::<String>();
    format!("{}{sign}{body}{}", rep(l), rep(n - l))
}
fn bodies(s: &Spec, x: Bits) -> Vec<String> {
    if m::is_nan(x) {
        return vec!["NaN".into()];
    }
    if m::is_inf(x) {
        return vec!["inf".into()];
    }
    let point = |d: &str| {
        if d.len() > 1 {
            format!("{}.{}", &d[..1], &d[1..])
        } else {
            d.to_string()
        }
    };
    if m::is_zero(x) {
        let z = "0".repeat(s.p.unwrap_or(0) + 1);
        let z = point(&z);
        return vec![if s.ty == "d" { z } else { format!("{z}{}0", s.ty) }];
    }
    match (s.ty, s.p) {
        ("d", Some(p)) => vec![dec::fixed(x, p)],
        ("d", None) => dec::shortest(x).iter().map(|(d, k)| dec::plain(d, *k)).collect(),
        (e, Some(p)) => {
            let (d, k) = dec::sci(x, p);
            vec![format!("{}{e}{k}", point(&d))]
        }
        (e, None) => dec::shortest(x)
            .iter()
            .map(|(d, k)| {
                let t = d.to_dec();
                format!("{}{e}{}", point(&t), k + t.len() as i64 - 1)
            })
            .collect(),
    }
}
/// long strings are compared by their ends and a hash
fn short(t: String) -> String {
    if t.len() <= 400 {
        return t;
    }
    format!("{}...{}<{} bytes, {:x}>", &t[..100], &t[t.len() - 100..], t.len(), crate::run::fnv(t.as_bytes()))
}
fn out(v: Vec<String>) -> Out {
    let mut v: Vec<String> = v.into_iter().map(short).collect();
    if v.len() == 1 {
        Out::S(v.pop().unwrap())
    } else {
        Out::OneOf(v)
    }
}
/// "fmt <type> <flags> <precision> <width> <bits>"
pub struct Fmt;
impl Ext for Fmt {
    fn name(&self) -> &'static str {
        "fmt"
    }
    fn model(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        let x = parse_bits(b).unwrap();
        if s.p.is_some_and(|p| p > 75) && m::is_fin(x) && !m::is_zero(x) {
            return Out::Panics;
        }
        out(bodies(&s, x).into_iter().map(|b| pad(&s, x, b)).collect())
    }
    fn impl_eval(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        out(vec![render(&fb(parse_bits(b).unwrap()), s.ty, s.f, s.p, s.w)])
    }
}
/// the same text as f64 gives, for values short enough for both
pub struct FmtF64;
impl Ext for FmtF64 {
    fn name(&self) -> &'static str {
        "fmt_as_f64"
    }
    fn model(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        let x = f64::from_bits(u64::from_str_radix(b, 16).unwrap());
        Out::S(render(&x, s.ty, s.f, s.p, s.w))
    }
    fn impl_eval(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        let x = f256::from(f64::from_bits(u64::from_str_radix(b, 16).unwrap()));
        Out::S(render(&x, s.ty, s.f, s.p, s.w))
    }
}
/// from_str(format(x)) is x again
pub struct RoundTrip;
impl Ext for RoundTrip {
    fn name(&self) -> &'static str {
        "fmt_parse"
    }
    fn model(&self, a: &str) -> Out {
        let (_, b) = parse_spec(a);
        Out::S(nan_or(parse_bits(b).unwrap()))
    }
    fn impl_eval(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        let t = render(&fb(parse_bits(b).unwrap()), s.ty, s.f, s.p, s.w);
        match t.parse::<f256>() {
            Ok(x) => Out::S(nan_or(x.to_bits())),
            Err(e) => Out::S(format!("{:?} {e:?}", short(t))),
        }
    }
}
/// a writer that refuses the fault-th call
struct Sink {
    text: String,
    calls: usize,
    fault: usize,
    late: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        match self.calls.cmp(&self.fault) {
            std::cmp::Ordering::Less => {
                self.text.push_str(s);
                Ok(())
            }
            std::cmp::Ordering::Equal => Err(std::fmt::Error),
            std::cmp::Ordering::Greater => {
                self.late = true;
                Ok(())
            }
        }
    }
}
/// every single call to the writer fails once
pub struct FmtFault;
impl Ext for FmtFault {
    fn name(&self) -> &'static str {
        "fmt_fault"
    }
    fn model(&self, _: &str) -> Out {
        Out::S("every fault reported at once".into())
    }
    fn impl_eval(&self, a: &str) -> Out {
        let (s, b) = parse_spec(a);
        let x = fb(parse_bits(b).unwrap());
        let run = |fault| {
            let mut k = Sink { text: String::new(), calls: 0, fault, late: false };
            let r = render_to(&mut k, &x, s.ty, s.f, s.p, s.w);
            (r, k)
        };
        let (r, all) = run(usize::MAX);
        if r.is_err() || all.text != render(&x, s.ty, s.f, s.p, s.w) {
            return Out::S(format!("{r:?}, {:?}", all.text));
        }
        for i in 1..=all.calls {
            let (r, k) = run(i);
            if r.is_ok() || k.late || !all.text.starts_with(&k.text) {
                return Out::S(format!("call {i} refused: {r:?}, goes on: {}, {:?}", k.late, k.text));
            }
        }
        Out::S("every fault reported at once".into())
    }
}
/// what {:?} prints stands for the value
pub struct Dbg;
impl Ext for Dbg {
    fn name(&self) -> &'static str {
        "debug"
    }
    fn model(&self, a: &str) -> Out {
        let x = parse_bits(a).unwrap();
        if m::is_nan(x) {
            Out::S("\"NaN\"".into())
        } else if m::is_inf(x) {
            Out::S(format!("\"{}inf\"", if m::sgn(x) { "-" } else { "" }))
        } else {
            Out::Raw(x)
        }
    }
    fn impl_eval(&self, a: &str) -> Out {
        let t = format!("{:?}", fb(parse_bits(a).unwrap()));
        let w: Vec<&str> = t.split([',', '(', ')', ' ']).filter(|w| !w.is_empty()).collect();
        let hex = |s: &str| u128::from_str_radix(s.strip_prefix("0x")?, 16).ok();
        let value = || {
            let [s, e, h, l] = w[..] else { return None };
            let s = ["0", "1"].iter().position(|d| *d == s)? == 1;
            let (e, c) = (e.parse::<i64>().ok()?, Big::from_hilo(hex(h)?, hex(l)?));
            let x = m::round(s, &c, e, false);
            if c.is_zero() {
                return Some(m::zero(s));
            }
            // exactly that number
            let (_, d, k) = m::dec(x);
            (d.shift(d.tz().max(0) * -1).cmp(&c.shift(-c.tz())).is_eq() && k + d.tz() == e + c.tz()).then_some(x)
        };
        value().map_or(Out::S(t), Out::F)
    }
}

/// a NaN has neither sign nor payload in its text
fn nan_or(x: Bits) -> String {
    if m::is_nan(x) { "NaN".into() } else { show(x) }
}
fn chk(l: &mut Local, ty: &str, f: &str, p: Option<usize>, w: Option<usize>, x: Bits) {
    let s = Spec { ty, f, p, w };
    l.check(Case::X(&Fmt, format!("{} {}", s.text(), bt(x))));
}

pub fn shortest(ctx: &Ctx) {
    let fs = fracs_s();
    let n = if ctx.thorough { fs.len() } else { 12.min(fs.len()) };
    ctx.explore("every exponent, scientific", 0x7ffff, |l, i| {
        for &f in &fs[..n] {
            chk(l, "e", "-", None, None, enc(i & 1 == 1, i as i64, f));
        }
    });
    let fm = if ctx.thorough { fracs_l() } else { fracs_m() };
    let mut es = vec![];
    for b in [0, BIAS, EXPMAX] {
        for d in -700..=700 {
            es.push(b + d);
        }
    }
    es.retain(|e| (0..EXPMAX).contains(e));
    ctx.explore("exponents around 0, 1 and the maximum x significands", es.len(), |l, i| {
        for &f in &fm {
            chk(l, "e", "-", None, None, enc(false, es[i], f));
        }
    });
    // few-digit decimals: the shortest text has to find them again
    ctx.explore("values of few-digit decimals d·10^k", 3201, |l, i| {
        let k = if i < 1601 { i as i64 - 800 } else { (i as i64 - 2400) * 98 };
        for d in [1u64, 2, 3, 5, 7, 9, 10, 11, 25, 99, 101, 123, 4503599627370497, 9999999999999999] {
            let x = dec::round_dec(false, &crate::big::Big::from_u64(d), k);
            if m::is_fin(x) && !m::is_zero(x) {
                chk(l, "e", "-", None, None, x);
                chk(l, "e", "-", None, None, (x.0, x.1 ^ 1));
                if k.abs() < 900 {
                    chk(l, "d", "-", None, None, x);
                }
            }
        }
    });
    ctx.explore("long decimals: 70 to 73 digits", 300, |l, i| {
        let k = i as i64 * 3 - 450;
        for (j, base) in irregular().into_iter().enumerate() {
            let t = crate::big::Big::from_hilo(base.0 | 1 << 107, base.1).to_dec();
            for n in [69, 70, 71] {
                let t = format!("{}{}", j % 9 + 1, &t[..n]);
                let d = crate::big::Big::from_dec(&t);
                for x in [dec::round_dec(false, &d, k), dec::round_dec(false, &d, k - 70)] {
                    chk(l, "e", "-", None, None, x);
                }
            }
        }
    });
    // integers and fractions with few bits
    ctx.explore("small integers x powers of two", 1200, |l, i| {
        let q = i as i64 - 600;
        for n in 1..=if ctx.thorough { 1000u128 } else { 200 } {
            let x = m::round(false, &crate::big::Big::from_u128(n), q, false);
            chk(l, "d", "-", None, None, x);
        }
    });
    ctx.explore("subnormals", 236, |l, i| {
        let i = i as u32;
        for f in [bit(i), mask(i + 1), or(bit(i), bit(0)), or(bit(i), bit(i / 2)), fnot(mask(i))] {
            for ty in ["d", "e", "E"] {
                if ty != "d" || i % 20 == 0 {
                    chk(l, ty, "-", None, None, enc(i % 2 == 1, 0, f));
                }
            }
        }
        if i < 16 {
            for k in (i as u128) * 64..(i as u128 + 1) * 64 {
                if k > 0 {
                    chk(l, "e", "-", None, None, (0, k));
                }
            }
        }
    });
    // exact ties between the two shortest candidates: odd·2^-(k+1) whose last
    // place is about 10^-k
    ctx.explore("exact ties of the last digit", 104, |l, i| {
        for x in short_ties(i as i64 + 1) {
            chk(l, "e", "-", None, None, x);
        }
    });
    // a bound of the rounding interval that is itself a short decimal
    ctx.explore("rounding intervals bounded by short decimals", 104, |l, i| {
        for x in short_bounds(i as i64 + 1) {
            chk(l, "e", "-", None, None, x);
        }
    });
    ctx.explore("plain layout over the exponent range", 0x7ffff / 797, |l, i| {
        for &f in &fs[..2] {
            chk(l, "d", "-", None, None, enc(i & 1 == 1, i as i64 * 797, f));
        }
    });
}
/// odd numbers of exactly n bits
fn odd_alphabet(n: i64) -> Vec<Big> {
    if n <= 6 {
        let h = 1u64 << (n - 1);
        return (h..2 * h).filter(|c| c % 2 == 1).map(Big::from_u64).collect();
    }
    let top = Big::pow2(n - 1);
    let mut v = vec![];
    for d in (1..16).step_by(2) {
        v.push(top.add_u64(d));
        v.push(Big::pow2(n).sub(&Big::from_u64(d)));
    }
    for (a, b) in irregular() {
        v.push(top.add(&Big::from_hilo(a, b).low_bits((n - 1).min(236)).shr(1).shl(1)).add_u64(1));
    }
    v
}
/// values odd·2^-(k+1+d) with an ulp around 10^-k
fn short_ties(k: i64) -> Vec<Bits> {
    let mut v = vec![];
    for n in k - 1..=k + 3 {
        for q in k * 3322 / 1000 - 6..=k * 3322 / 1000 + 6 {
            let bits = 237 - (q - n);
            if n < 0 || !(1..=237).contains(&bits) {
                continue;
            }
            for c in odd_alphabet(bits) {
                v.push(m::round(false, &c, -n, false));
            }
        }
    }
    v
}
/// the neighbours of midpoints c·5^k·2^s, with c odd
fn short_bounds(k: i64) -> Vec<Bits> {
    let p = Big::pow(5, k as u64);
    let lo = Big::pow2(237).div_rem(&p).0.add_u64(1);
    let hi = Big::pow2(238).sub(&Big::from_u64(1)).div_rem(&p).0;
    let mut cs = vec![];
    for d in 0..12 {
        cs.push(lo.add_u64(d));
        if hi.cmp(&Big::from_u64(d)).is_gt() {
            cs.push(hi.sub(&Big::from_u64(d)));
        }
        cs.push(lo.add(&hi.sub(&lo).mul_u64(d).div_rem_u64(12).0).add_u64(d));
    }
    cs.retain(|c| c.is_odd() && c.cmp(&lo).is_ge() && c.cmp(&hi).is_le());
    let mut v = vec![];
    for c in cs {
        let mid = c.mul(&p);
        for t in -4..=k * 2322 / 1000 + 8 {
            if t > 4 && (t - k * 2322 / 1000).abs() > 8 && t % 9 != 0 {
                continue;
            }
            let s = t + k;
            for h in [mid.shr(1), mid.shr(1).add_u64(1)] {
                v.push(m::round(false, &h, s + 1, false));
            }
        }
    }
    v
}

pub fn precision(ctx: &Ctx) {
    let fs = fracs_s();
    let precs: Vec<usize> = (0..=75).collect();
    let step = if ctx.thorough { 1 } else { 7 };
    ctx.explore("exponents over the whole range, scientific", 0x7ffff / step, |l, i| {
        let e = (i * step) as i64;
        for (j, &f) in fs.iter().enumerate().take(6) {
            let p = (i * 5 + j * 13) % 76;
            chk(l, "e", "-", Some(p), None, enc(false, e, f));
        }
    });
    let fm = fracs_m();
    let mut es = vec![];
    for b in [0, BIAS, EXPMAX] {
        for d in -600..=600i64 {
            if d.abs() < 330 || d % 11 == 0 {
                es.push(b + d);
            }
        }
    }
    es.retain(|e| (0..EXPMAX).contains(e));
    ctx.explore("every precision x exponents around 0, 1 and the maximum, scientific", es.len(), |l, i| {
        for &p in &precs {
            for (j, &f) in fm.iter().enumerate() {
                if j < 6 || (j + p + i) % if ctx.thorough { 3 } else { 23 } == 0 {
                    chk(l, if j % 2 == 0 { "e" } else { "E" }, "-", Some(p), None, enc(false, es[i], f));
                }
            }
        }
    });
    let es: Vec<i64> = (-300..=300).map(|d| BIAS + d).collect();
    ctx.explore("every precision x exponents around 1, fixed point", es.len(), |l, i| {
        for &p in &precs {
            for (j, &f) in fm.iter().enumerate() {
                if j < 6 || (j + p + i) % if ctx.thorough { 3 } else { 23 } == 0 {
                    chk(l, "d", "-", Some(p), None, enc(j % 2 == 1, es[i], f));
                }
            }
        }
    });
    // exact ties: odd multiples of 2^-(p+1) scaled by powers of five, i.e.
    // decimals that end in 5 one digit behind the precision
    ctx.explore("ties and their neighbours, fixed point", 76, |l, p| {
        for u in [0u128, 1, 2, 3, 7, 9, 10, 99, 100, 12345, 999999] {
            // (u·10 + 5)/10^(p+1) is a binary fraction only if 5^(p+1) divides: use k/2^(p+1)
            let x0 = m::round(false, &crate::big::Big::from_u128(2 * u + 1), -(p as i64) - 1, false);
            for x in [x0, (x0.0, x0.1 + 1), (x0.0, x0.1.wrapping_sub(1))] {
                for q in [p.saturating_sub(1), p, (p + 1).min(75)] {
                    chk(l, "d", "-", Some(q), None, x);
                    chk(l, "e", "-", Some(q), None, x);
                }
            }
        }
        // n + 1/2 with precision 0; n·10^j + 5·10^(j-1) scientific
        for n in 0..40u128 {
            let h = m::round(false, &crate::big::Big::from_u128(2 * (n + 40 * p as u128) + 1), -1, false);
            for x in [h, (h.0, h.1.wrapping_add(1)), (h.0, h.1.wrapping_sub(1))] {
                chk(l, "d", "-", Some(0), None, x);
            }
            let t = format!("{}5{}", n + 40 * p as u128 + 1, "0".repeat(p % 60));
            let x0 = dec::round_dec(false, &crate::big::Big::from_dec(&t), 0);
            let digs = t.trim_end_matches('0').len();
            if digs >= 2 {
                for x in [x0, (x0.0, x0.1.wrapping_add(1)), (x0.0, x0.1.wrapping_sub(1))] {
                    chk(l, "e", "-", Some(digs - 2), None, x);
                }
            }
        }
    });
    // ties of large values: d·10^k with 5^(k-1) dividing the significand
    ctx.explore("large ties, scientific", 103, |l, k| {
        for d in [5u64, 15, 25, 35, 995, 9999995, 123456789012345] {
            for up in [0, 1, 30, 200, 250, 280, 300, 1000, 100000] {
                // d·5^k·2^up
                let b = crate::big::Big::from_u64(d).mul(&dec::pow5(k as u64));
                if b.bits() > 237 {
                    continue;
                }
                let x0 = m::round(false, &b, up, false);
                for x in [x0, (x0.0, x0.1.wrapping_add(1)), (x0.0, x0.1.wrapping_sub(1))] {
                    for p in 0..=if ctx.thorough { 75 } else { 20 } {
                        chk(l, "e", "-", Some(p), None, x);
                    }
                }
            }
        }
    });
    // 9.99..95, 99..9.5: the carry runs through all digits
    ctx.explore("carries", 76, |l, p| {
        for k in -90..90i64 {
            let d = crate::big::Big::from_dec(&"9".repeat(p + 2));
            let e = crate::big::Big::from_dec(&format!("{}5", "9".repeat(p + 1)));
            for d in [d, e] {
                let x = dec::round_dec(false, &d, k - p as i64);
                for x in [x, (x.0, x.1.wrapping_add(1)), (x.0, x.1.wrapping_sub(1))] {
                    for q in [p, p.saturating_sub(1), (p + 1).min(75)] {
                        chk(l, "e", "-", Some(q), None, x);
                        if (-75..60).contains(&k) {
                            chk(l, "d", "-", Some(q), None, x);
                        }
                    }
                }
            }
        }
    });
    // decimals with few digits are as close to chunk boundaries as can be
    let (n, step) = if ctx.thorough { (400, 394) } else { (40, 3940) };
    ctx.explore("few-digit decimals and their neighbours", 301 + n, |l, i| {
        let far = i > 300;
        let k = if far { (i as i64 - 301 - n as i64 / 2) * step + 7 } else { i as i64 - 150 };
        for d in [1u64, 2, 5, 7, 9, 10, 15, 25, 95, 99, 125, 995, 12345, 99999999999999995] {
            let x = dec::round_dec(false, &crate::big::Big::from_u64(d), k);
            if !m::is_fin(x) || m::is_zero(x) {
                continue;
            }
            for x in [x, (x.0, x.1.wrapping_add(1)), (x.0, x.1.wrapping_sub(1))] {
                let take = |p: usize| match (ctx.thorough, far) {
                    (true, false) => true,
                    (true, true) | (false, false) => (p + i) % 5 == 0 || p < 4,
                    _ => (p + i) % 25 == 0 || p == 0,
                };
                for p in (0..=75).filter(|p| take(*p)) {
                    chk(l, "e", "-", Some(p), None, x);
                    if (-170..80).contains(&k) {
                        chk(l, "d", "-", Some(p), None, x);
                    }
                }
            }
        }
    });
    let fs2 = &fs[..if ctx.thorough { 6 } else { 2 }];
    ctx.explore("fixed point over the exponent range", 0x7ffff / 4001, |l, i| {
        for &f in fs2 {
            for p in [0, 1, 18, 19, 20, 74, 75] {
                chk(l, "d", "-", Some(p), None, enc(false, i as i64 * 4001, f));
            }
        }
    });
}

pub fn flags(ctx: &Ctx) {
    let mut v = specials();
    v.retain(|x| m::is_nan(*x) || m::is_inf(*x) || m::is_zero(*x));
    for (n, q) in [(1, 0), (1, -1), (3, -1), (19, -1), (199, -1), (12345, -7), (12345, 3), (1, 40), (5, -60), (99999, 0)] {
        let x = m::round(false, &crate::big::Big::from_u64(n), q, false);
        v.push(x);
        v.push(m::neg(x));
    }
    for t in [(1, -1), (1, 1), (123, -2), (999, -3), (1, -30), (12, 30)] {
        v.push(dec::round_dec(true, &crate::big::Big::from_u64(t.0), t.1));
        v.push(dec::round_dec(false, &crate::big::Big::from_u64(t.0), t.1));
    }
    ctx.explore("all flags x widths x precisions", v.len(), |l, i| {
        for ty in ["d", "e", "E"] {
            for f in FLAGS {
                for p in [None, Some(0), Some(1), Some(2), Some(5), Some(19), Some(75)] {
                    chk(l, ty, f, p, None, v[i]);
                    for w in (0..=40).chain([80, 90]) {
                        chk(l, ty, f, p, Some(w), v[i]);
                    }
                }
            }
        }
    });
    ctx.explore("precision above the documented limit", v.len(), |l, i| {
        for ty in ["d", "e", "E"] {
            for p in [76, 77, 100, 1000] {
                if m::is_fin(v[i]) && !m::is_zero(v[i]) {
                    chk(l, ty, "-", Some(p), None, v[i]);
                }
            }
        }
    });
    // against f64 itself: dyadic fractions with few digits
    let mut w: Vec<f64> = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY];
    for q in 0..=10 {
        for n in 0..64 {
            w.push((2 * n + 1) as f64 / (1u64 << q) as f64);
            w.push(-((2 * n + 1) as f64) / (1u64 << q) as f64);
        }
    }
    for q in 0..50 {
        w.push((1u64 << q) as f64);
    }
    ctx.explore("all flags, widths and precisions against f64", w.len(), |l, i| {
        for ty in ["d", "e", "E"] {
            for f in FLAGS {
                for p in [None, Some(0), Some(1), Some(2), Some(3), Some(7), Some(19), Some(20)] {
                    for wd in [None, Some(1), Some(7), Some(8), Some(9), Some(30)] {
                        let s = Spec { ty, f, p, w: wd };
                        l.check(Case::X(&FmtF64, format!("{} {:016x}", s.text(), w[i].to_bits())));
                    }
                }
            }
        }
    });
}

pub fn round_trip(ctx: &Ctx) {
    let fs = fracs_s();
    let rt = |l: &mut Local, ty: &str, x: Bits| {
        let s = Spec { ty, f: "-", p: None, w: None };
        l.check(Case::X(&RoundTrip, format!("{} {}", s.text(), bt(x))));
    };
    // from_str needs up to 0.5 s for a literal far off 1
    let far = if ctx.thorough { 12000 } else { 700 };
    ctx.explore("exponents over the whole range", far + 1, |l, i| {
        let e = (i * 0x7fffe / far) as i64;
        rt(l, if i % 2 == 0 { "e" } else { "E" }, enc(i & 4 == 4, e, fs[i * 5 % fs.len()]));
    });
    let fmm = fracs_m();
    ctx.explore("every exponent around 0", 3001, |l, i| {
        let e = BIAS + i as i64 - 1500;
        for f in &fmm {
            rt(l, "e", enc(i & 4 == 4, e, *f));
            rt(l, "d", enc(i & 4 != 4, e, *f));
        }
    });
    let fm = if ctx.thorough { fracs_l() } else { fracs_m() };
    ctx.explore("exponents around 0 x significands", fm.len(), |l, i| {
        for e in exps_m() {
            if (BIAS - 1000..BIAS + 1000).contains(&e) {
                rt(l, "e", enc(false, e, fm[i]));
                rt(l, "d", enc(true, e, fm[i]));
            }
        }
    });
    ctx.explore("specials", 1, |l, _| {
        for x in specials() {
            for ty in ["d", "e"] {
                rt(l, ty, x);
            }
        }
    });

}
pub fn debug(ctx: &Ctx) {
    let d = |l: &mut Local, x: Bits| {
        l.check(Case::X(&Dbg, bt(x)));
        l.check(Case::X(&Dbg, bt(m::neg(x))));
    };
    let sp = specials();
    ctx.explore("specials", sp.len(), |l, i| d(l, sp[i]));
    let fs = fracs_s();
    let st = if ctx.thorough { 1 } else { 5 };
    ctx.explore("exponents x significands", 0x80000 / st, |l, i| {
        for f in &fs {
            d(l, enc(false, (i * st) as i64, *f));
        }
    });
    let fl = fracs_l();
    ctx.explore("significand patterns", fl.len(), |l, i| {
        for e in exps_m() {
            d(l, enc(false, e, fl[i]));
        }
    });
}
pub fn faults(ctx: &Ctx) {
    let mut v = specials();
    v.extend([1e-5f64, 0.1, 1.5, 10., 12345.678, 1e17, 1e100, 2.5e-300].map(|x| f256::from(x).to_bits()));
    if ctx.thorough {
        v.extend(cross(&[BIAS - 300, BIAS - 1, BIAS, BIAS + 235, BIAS + 300], &fracs_m()));
    }
    // texts of megabytes only once
    let near = |x: &Bits| m::is_zero(*x) || !m::is_fin(*x) || (m::bexp(*x) - BIAS).abs() < 4000;
    v.retain(near);
    let ws: Vec<Option<usize>> = [None].into_iter().chain([0, 1, 2, 5, 8, 20, 73, 90, 400].map(Some)).collect();
    let ps = [None, Some(0), Some(1), Some(5), Some(40), Some(75)];
    ctx.explore("values x flags x width x precision x every call to the writer", v.len() * FLAGS.len(), |l, i| {
        let (x, f) = (v[i / FLAGS.len()], FLAGS[i % FLAGS.len()]);
        for w in &ws {
            for p in &ps {
                for ty in ["d", "e", "E"] {
                    let s = Spec { ty, f, p: *p, w: *w };
                    l.check(Case::X(&FmtFault, format!("{} {}", s.text(), bt(x))));
                }
            }
        }
    });
}
