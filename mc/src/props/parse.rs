//! E01 (decimal to binary conversion), E02 (literal grammar)
use crate::alpha::*;
use crate::big::Big;
use crate::case::{Case, Ext, Out};
use crate::dec::{self, Lit};
use crate::model::{self as m, enc, Bits};
use crate::run::Ctx;
use f256::f256;
use std::str::FromStr;

/// literals as case arguments: anything unusual as %xxxxxx (code point, hex),
/// runs of one character as c{n}
pub fn encode(t: &str) -> String {
    let mut r = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let mut n = 1;
        while i + n < c.len() && c[i + n] == c[i] {
            n += 1;
        }
        let one = if c[i].is_ascii_alphanumeric() || "+-._".contains(c[i]) {
            c[i].to_string()
        } else {
            format!("%{:06x}", c[i] as u32)
        };
        if n > 5 {
            r.push_str(&format!("{one}{{{n}}}"));
        } else {
            for _ in 0..n {
                r.push_str(&one);
            }
        }
        i += n;
    }
    r
}
pub fn decode(a: &str) -> String {
    let c: Vec<char> = a.chars().collect();
    let mut r = String::new();
    let mut i = 0;
    while i < c.len() {
        let ch = if c[i] == '%' {
            let h: String = c[i + 1..i + 7].iter().collect();
            i += 6;
            char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()
        } else {
            c[i]
        };
        i += 1;
        let mut n = 1;
        if c.get(i) == Some(&'{') {
            let e = i + c[i..].iter().position(|x| *x == '}').unwrap();
            n = c[i + 1..e].iter().collect::<String>().parse().unwrap();
            i = e + 1;
        }
        for _ in 0..n {
            r.push(ch);
        }
    }
    r
}
fn err(e: std::num::ParseFloatError) -> Out {
    Out::E(format!("{e:?}"))
}
pub fn model_lit(t: &str) -> Out {
    match dec::parse(t) {
        Lit::Empty => err(f64::from_str("").unwrap_err()),
        Lit::Invalid => err(f64::from_str("_").unwrap_err()),
        Lit::Nan => Out::F(m::NAN),
        Lit::Inf(s) => Out::F(m::inf(s)),
        Lit::Num(s, d, k) => Out::F(dec::round_dec(s, &d, k)),
    }
}
fn impl_lit(t: &str) -> Out {
    match f256::from_str(t) {
        Ok(x) => Out::F(x.to_bits()),
        Err(e) => err(e),
    }
}
pub struct Parse;
impl Ext for Parse {
    fn name(&self) -> &'static str {
        "parse"
    }
    fn model(&self, a: &str) -> Out {
        model_lit(&decode(a))
    }
    fn impl_eval(&self, a: &str) -> Out {
        impl_lit(&decode(a))
    }
}
/// all the entry points for text: they have to agree
pub struct ParseAll;
impl Ext for ParseAll {
    fn name(&self) -> &'static str {
        "parse_all"
    }
    fn model(&self, a: &str) -> Out {
        model_lit(&decode(a))
    }
    fn impl_eval(&self, a: &str) -> Out {
        let t = decode(a);
        let f = |r: Result<f256, std::num::ParseFloatError>| match r {
            Ok(x) => Out::F(if x.is_nan() { m::NAN } else { x.to_bits() }),
            Err(e) => err(e),
        };
        let r = f(t.parse());
        let s = f(f256::try_from(t.as_str()));
        let u = f(<f256 as num_traits::Num>::from_str_radix(&t, 10));
        let bad = [2, 8, 9, 11, 16, 36].iter().any(|r| {
            <f256 as num_traits::Num>::from_str_radix(&t, *r).is_ok()
        });
        if r != s || r != u {
            return Out::S(format!("from_str {} try_from {} from_str_radix {}", r.text(), s.text(), u.text()));
        }
        if bad {
            return Out::S("from_str_radix accepts a radix other than 10".into());
        }
        r
    }
}
/// the exact decimal expansion of the midpoint between |x| and its successor,
/// moved by a little: args <bits> <mode> with mode 0: exact, 1: a digit 1 far
/// behind the end, 2: last digit less one, 3: x itself
pub struct ParseMid;
fn mid_text(x: Bits, mode: u32) -> String {
    let (s, mm, e) = m::dec(x);
    let (v, e) = if mode == 3 { (mm, e) } else { (mm.shl(1).add_u64(1), e - 1) };
    let (mut d, k) = if e >= 0 { (v.shl(e), 0) } else { (v.mul(&Big::pow(5, (-e) as u64)), e) };
    if mode == 2 {
        d = d.sub(&Big::from_u64(1));
    }
    let mut t = d.to_dec();
    if k < 0 {
        let n = (-k) as usize;
        if t.len() > n {
            t.insert(t.len() - n, '.');
        } else {
            t = if n > 2000 && x.0 & 1 == 0 { format!("{t}e{k}") } else { format!("0.{}{}", "0".repeat(n - t.len()), t) };
        }
    } else if mode == 1 {
        t.push('.');
    }
    if mode == 1 && !t.contains('e') {
        t.push_str("0001");
    } else if mode == 1 {
        let p = t.find('e').unwrap();
        t.insert_str(p, ".0001");
    }
    if s {
        t.insert(0, '-');
    }
    t
}
fn mid_args(a: &str) -> (Bits, u32) {
    let w: Vec<&str> = a.split_whitespace().collect();
    (crate::case::parse_bits(w[0]).unwrap(), w[1].parse().unwrap())
}
impl Ext for ParseMid {
    fn name(&self) -> &'static str {
        "parse_mid"
    }
    fn model(&self, a: &str) -> Out {
        let (x, mode) = mid_args(a);
        let up = if x.1 == u128::MAX { (x.0 + 1, 0) } else { (x.0, x.1 + 1) };
        Out::F(match mode {
            0 if x.1 & 1 == 1 => up,
            1 => up,
            _ => x,
        })
    }
    fn impl_eval(&self, a: &str) -> Out {
        let (x, mode) = mid_args(a);
        impl_lit(&mid_text(x, mode))
    }
}
fn lit(t: &str) -> Case {
    Case::X(&Parse, encode(t))
}
fn all(t: &str) -> Case {
    Case::X(&ParseAll, encode(t))
}
fn mid(x: Bits, mode: u32) -> Case {
    Case::X(&ParseMid, format!("{} {mode}", crate::case::bt(x)))
}

fn signifs() -> Vec<String> {
    let mut v: Vec<String> = ["1", "2", "5", "9", "17", "3.14159", "8444249301319680000001", "12345678901234567890123456789"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let two = |n: i64, d: i64| {
        let b = Big::pow2(n);
        if d < 0 { b.sub(&Big::from_u64(1)).to_dec() } else { b.add_u64(d as u64).to_dec() }
    };
    for (n, d) in [(236, 1), (237, -1), (237, 1), (238, 1), (255, 1), (64, -1), (128, 1)] {
        v.push(two(n, d));
    }
    v.push("9".repeat(77));
    v.push("9".repeat(78));
    v.push(format!("1{}1", "0".repeat(90)));
    v.push(format!("{}.{}", "31415926535897932384626433832795028841", "971693993751058209749445923078164062862089986280348253"));
    v
}

/// significands w (up to `maxw` bits) such that w·10^k is extremely close to a
/// midpoint of two adjacent binary256 values: convergents of 10^k / 2^j
fn hard(k: i64, maxw: i64) -> Vec<Big> {
    let (b, _, _) = dec::pow10_approx(k);
    // α = b / 2^(640-1) in [1, 2); want w·α ≈ odd n·2^t with n of 238 bits
    let mut out = vec![];
    for t in 0..4i64 {
        // w of about 237 - t .. maxw bits: scale α by a power of two
        let (mut n, mut d) = (b.clone(), Big::pow2(639 + t * 6));
        let (mut p0, mut q0, mut p1, mut q1) = (Big::from_u64(1), Big::zero(), Big::zero(), Big::from_u64(1));
        loop {
            if d.is_zero() {
                break;
            }
            let (a, r) = n.div_rem(&d);
            (n, d) = (d, r);
            let p2 = a.mul(&p0).add(&p1);
            let q2 = a.mul(&q0).add(&q1);
            (p1, q1, p0, q0) = (p0, q0, p2, q2);
            if q0.bits() > maxw {
                break;
            }
            // p0/q0 ≈ α: q0·α ≈ p0
            if p0.bits() >= 200 && p0.bits() <= 238 {
                // scale to make the numerator an odd 238 bit number: multiply
                // by an odd factor
                let f = 238 - p0.bits();
                for g in [1u64, 3] {
                    let c = if f < 2 { 1 } else { (1u64 << f.min(40)) - g };
                    let (p, q) = (p0.mul_u64(c), q0.mul_u64(c));
                    if p.bits() == 238 && p.is_odd() && q.bits() <= maxw {
                        out.push(q);
                    }
                }
                if f < 2 {
                    // semi-convergents around
                    for (p, q) in [(p0.add(&p1), q0.add(&q1)), (p0.shl(1).add(&p1), q0.shl(1).add(&q1))] {
                        if p.is_odd() && p.bits() == 238 {
                            out.push(q);
                        }
                    }
                }
            }
        }
    }
    out.sort_by(|a, b| a.cmp(b));
    out.dedup();
    out
}

pub fn decimal(ctx: &Ctx) {
    let sg = signifs();
    // every decimal exponent of the fast algorithms
    ctx.explore("every decimal exponent |k| <= 1100 x significands", 2201, |l, i| {
        let k = i as i64 - 1100;
        for s in &sg {
            l.check(lit(&format!("{s}e{k}")));
            l.check(lit(&format!("-{s}e{k}")));
        }
    });
    // beyond, the decimal conversion takes up to 0.5 s per literal
    let mut ks: Vec<i64> = vec![];
    for d in -3..=3 {
        for k in [-79061i64, -79056, -78984, -78913, 78836, 78913] {
            ks.push(k + d);
        }
    }
    let (n, st) = if ctx.thorough { (4000, 39) } else { (100, 1571) };
    for i in 0..n {
        ks.push(-79070 + i * st);
    }
    ctx.explore("decimal exponents on a grid over the full range and around underflow and overflow x significands in turn", ks.len(), |l, i| {
        for j in 0..if ctx.thorough { 3 } else { 1 } {
            l.check(lit(&format!("{}e{}", sg[(i + j * 5) % sg.len()], ks[i])));
        }
    });
    // closest approaches to a midpoint
    let ks: Vec<i64> = (-1200..1201).collect();
    ctx.explore("significands whose product with 10^k comes closest to a rounding boundary, every |k| <= 1200", ks.len(), |l, i| {
        for w in hard(ks[i], 255) {
            for d in 0..3u64 {
                let w = w.add_u64(d).sub(&Big::from_u64(1));
                l.check(lit(&format!("{}e{}", w.to_dec(), ks[i])));
            }
            l.check(lit(&format!("{}0001e{}", w.to_dec(), ks[i] - 4)));
        }
    });
    // exact midpoints
    let fr = fracs_s();
    let mut es: Vec<i64> = (-700..700).map(|e| m::BIAS + e).collect();
    if !ctx.thorough {
        es.retain(|e| (e - m::BIAS).abs() < 300 || e % 5 == 0);
    }
    ctx.explore("exact midpoints of adjacent values and their decimal neighbours, exponents around 0", es.len(), |l, i| {
        for (j, &f) in fr.iter().enumerate() {
            if !ctx.thorough && (i + j) % 3 != 0 {
                continue;
            }
            for s in [false, true] {
                for mode in 0..4 {
                    l.check(mid(enc(s, es[i], f), mode));
                }
            }
        }
    });
    let mut far: Vec<Bits> = vec![];
    let fl: Vec<Bits> = [(0, 0), (0, 1), (0, 2), (0, 3), mask(236), xor(mask(236), (0, 1)), bit(235), or(bit(120), (0, 1))].to_vec();
    let ef: &[i64] = if ctx.thorough {
        &[0, 1, 2, 3, 236, 237, 1000, 100000, 200000, BIAS - 5000, BIAS + 5000, 400000, EXPMAX - 2, EXPMAX - 1]
    } else {
        &[0, 1, 100000, EXPMAX - 1]
    };
    for &e in ef {
        for &f in &fl {
            far.push(enc(false, e, f));
        }
    }
    for p in 0..236 {
        if ctx.thorough || p % 40 == 0 {
            far.push(enc(false, 0, bit(p)));
            far.push(enc(true, 0, mask(p + 1)));
        }
    }
    ctx.explore("exact midpoints and neighbours at extreme exponents and of subnormals (up to 184000 digits)", far.len() * 4, |l, i| {
        l.check(mid(far[i / 4], (i % 4) as u32));
    });
    // digit sequences just below and above 5^n, where the number of digits a
    // multiplication by 2^n adds changes
    let rows = [1u64, 2, 3, 6, 9, 13, 16, 19, 23, 26, 29, 33, 36, 39, 43, 46, 49, 53, 56, 57, 59, 60];
    ctx.explore("digit sequences next to powers of five x positions of the radix point", rows.len() * 43, |l, i| {
        let p = Big::pow(5, rows[i / 43]);
        let t = p.to_dec();
        let j = i % 43;
        if j > t.len() {
            return;
        }
        // the first j digits, then zeros, and what is next to that
        let head = if j == 0 { Big::from_u64(10) } else { Big::from_dec(&t[..j]) };
        for d in 0..2u64 {
            let v = head.add_u64(d).mul(&Big::pow(10, 75 - j as u64));
            for v in [v.sub(&Big::from_u64(1)), v] {
                let n = v.to_dec().len() as i64;
                let mut xs: Vec<Bits> = vec![];
                for dp in 0..=20 {
                    xs.push(dec::round_dec(false, &v, -n - dp));
                }
                // digits after multiplication by 2^s
                for s in [60i64, 120, 180, 237] {
                    let x = dec::round_dec(false, &v, (s as f64 * 0.30103) as i64 - n + 1);
                    xs.push(m::scale(x, -s));
                    let x = dec::round_dec(false, &v, (s as f64 * 0.30103) as i64 - n);
                    xs.push(m::scale(x, -s));
                }
                for x in xs {
                    l.check(mid(x, 0));
                    l.check(mid(x, 1));
                }
            }
        }
    });
    // digit layouts
    let pats: Vec<Vec<u8>> = vec![
        b"1".repeat(200),
        b"9".repeat(200),
        b"90000000".repeat(25),
        b"12345678".repeat(25),
        [&b"1"[..], &b"0".repeat(60)[..], b"1", &b"0".repeat(137)[..], b"1"].concat(),
        [&b"7"[..], &b"0".repeat(198)[..], b"1"].concat(),
    ];
    let nmax = if ctx.thorough { 180 } else { 110 };
    ctx.explore("digit layouts: number of digits x position of the radix point x leading and trailing zeros x exponent", nmax, |l, i| {
        let n = i + 1;
        for r in 0..=n + 1 {
            for (pi, p) in pats.iter().enumerate() {
                for (zi, (z, t)) in [(0, 0), (1, 0), (0, 1), (8, 9), (9, 8), (17, 77), (77, 1), (3, 90)].into_iter().enumerate() {
                    if !ctx.thorough && (r + pi + zi) % 4 != 0 {
                        continue;
                    }
                    let mut s = String::from_utf8(p[..n].to_vec()).unwrap();
                    s.push_str(&"0".repeat(t));
                    if r <= n {
                        s.insert(r, '.');
                    }
                    s = "0".repeat(z) + &s;
                    let e = match (r + zi) % 5 {
                        0 => String::new(),
                        1 => format!("e-{}", r + t),
                        2 => "E+17".into(),
                        3 => "e-333".into(),
                        _ => format!("e{}", n),
                    };
                    l.check(lit(&format!("{s}{e}")));
                }
            }
        }
    });
    ctx.explore("values below one: zeros behind the radix point x digits x exponent", 200, |l, z| {
        for n in [1usize, 2, 8, 17, 76, 77, 78, 100] {
            for p in &pats {
                for e in ["", "e100", "e-5", "e0000000000000000000000000012"] {
                    let d = String::from_utf8(p[..n].to_vec()).unwrap();
                    l.check(lit(&format!(".{}{d}{e}", "0".repeat(z))));
                    l.check(lit(&format!("-0.{}{d}{e}", "0".repeat(z))));
                    l.check(lit(&format!("000000000{}{d}.{e}", "0".repeat(z))));
                }
            }
        }
    });
    // long literals whose exponent compensates the number of digits
    let ns: Vec<usize> = [100usize, 1000, 78900, 79100, 80000, 183465, 183466, 183467, 183468, 183469, 190000].to_vec();
    ctx.explore("very long literals with a compensating exponent", ns.len() * 6, |l, i| {
        let n = ns[i / 6];
        let t = match i % 6 {
            0 => format!("1{}e-{}", "0".repeat(n), n),
            1 => format!("0.{}1e{}", "0".repeat(n - 1), n),
            2 => format!("1{}.5e-{}", "0".repeat(n), n),
            3 => format!("{}e-{}", "9".repeat(n), n),
            4 => format!("0.5{}1", "0".repeat(n)),
            _ => format!("{}.{}5e-{}", "3".repeat(n), "0".repeat(20), n),
        };
        l.check(lit(&t));
    });
    // values half way below the smallest subnormal, and the overflow threshold
    let st = if ctx.thorough { 1 } else { 60 };
    ctx.explore("exponent bounds: counts of digits in front of a huge or tiny exponent", 300, |l, i| {
        let n = i + 1;
        for (j, k) in [-79400i64, -79140, -79057, -79056, -79055, -79000, -78985, -78984, -78983, -78914, -78913, -78912, 78512, 78836, 78911, 78912, 78913, 78914, 78915, 79000].into_iter().enumerate() {
            if (i + j) % st != 0 {
                continue;
            }
            for c in ["1", "9", "247"] {
                if ctx.thorough || c == "247" {
                    l.check(lit(&format!("{}e{k}", c.repeat(n))));
                    l.check(lit(&format!("{}e{}", c.repeat(n), k - (n * c.len()) as i64)));
                }
            }
            l.check(lit(&format!("0.{}1e{k}", "0".repeat(n))));
            l.check(lit(&format!("0.{}1e{}", "0".repeat(n), k + n as i64)));
        }
    });
}

pub fn grammar(ctx: &Ctx) {
    let al: Vec<char> = "07.+-eEn".chars().collect();
    let a = al.len();
    let max = if ctx.thorough { 7 } else { 6 };
    for len in 0..=max as u32 {
        ctx.explore(&format!("all strings of length {len} over [07.+-eEn]"), a.pow(len), |l, mut i| {
            let mut t = String::new();
            for _ in 0..len {
                t.push(al[i % a]);
                i /= a;
            }
            l.check(all(&t));
        });
    }
    // words
    let words = ["inf", "infinity", "nan"];
    ctx.explore("every capitalisation of inf, infinity and nan with every sign", 3 << 8, |l, i| {
        let (w, c) = (words[i % 3], i / 3);
        let t: String = w.chars().enumerate().map(|(j, x)| if c >> j & 1 == 1 { x.to_ascii_uppercase() } else { x }).collect();
        for s in ["", "+", "-", "++", "+-", " ", "- ", "0", "."] {
            l.check(all(&format!("{s}{t}")));
        }
    });
    let mut edits: Vec<String> = vec![];
    let chars: Vec<char> = "infatyINFATY0.e+-_ \u{131}\u{130}".chars().collect();
    for w in words {
        let c: Vec<char> = w.chars().collect();
        for p in 0..=c.len() {
            for x in &chars {
                let mut t = c.clone();
                t.insert(p, *x);
                edits.push(t.iter().collect());
                if p < c.len() {
                    let mut t = c.clone();
                    t[p] = *x;
                    edits.push(t.iter().collect());
                }
            }
            edits.push(c[..p].iter().collect());
            edits.push(c[p..].iter().collect());
            if p < c.len() {
                let mut t = c.clone();
                t.remove(p);
                edits.push(t.iter().collect());
            }
        }
    }
    edits.sort();
    edits.dedup();
    ctx.explore("every single edit of inf, infinity and nan", edits.len(), |l, i| {
        for s in ["", "-", "+"] {
            l.check(all(&format!("{s}{}", edits[i])));
        }
    });
    // one foreign character anywhere in long literals: the parser reads 8 byte chunks
    let tpl = [
        "1234567890123456789012345678901234567890",
        "12345678.90123456789012e-0012",
        "0000000000000000000000.0000000000000000000000001",
        "-0.000000017",
        "98765432109876543210987654321098765432109876543210987654321098765432109876543210.12345678901e5",
        ".12345678",
        "1234567.",
        "00000000",
    ];
    let mut subs: Vec<(usize, usize)> = vec![];
    for (j, t) in tpl.iter().enumerate() {
        for p in 0..=t.len() {
            subs.push((j, p));
        }
    }
    let mut foreign: Vec<char> = (0..=0xffu32).filter_map(char::from_u32).collect();
    foreign.extend(['\u{0660}', '\u{ff11}', '\u{2212}', '\u{1d7d8}', '\u{3002}', '\u{2e2e}', '\u{3030}']);
    ctx.explore("one character replaced or inserted at every position of long literals: all of U+0000..U+00FF and other digits", subs.len(), |l, i| {
        let (j, p) = subs[i];
        let t: Vec<char> = tpl[j].chars().collect();
        for &f in &foreign {
            let mut u = t.clone();
            u.insert(p, f);
            l.check(all(&u.iter().collect::<String>()));
            if p < t.len() {
                let mut u = t.clone();
                u[p] = f;
                l.check(all(&u.iter().collect::<String>()));
            }
        }
    });
    ctx.explore("two radix points, signs or exponent marks at every pair of positions", subs.len(), |l, i| {
        let (j, p) = subs[i];
        for q in p..=tpl[j].len() {
            for (x, y) in [('.', '.'), ('e', 'e'), ('-', '-'), ('.', 'e'), ('e', '.'), ('e', '-'), ('e', '+')] {
                let mut u: Vec<char> = tpl[j].chars().collect();
                u.insert(q, y);
                u.insert(p, x);
                l.check(all(&u.iter().collect::<String>()));
            }
        }
    });
    // exponents beyond every integer type
    let mut exps: Vec<String> = vec![];
    for b in [0i128, 1 << 7, 1 << 15, 1 << 16, 78913, 78984, 262143, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 1 << 126] {
        for d in -3..=3 {
            if b + d >= 0 {
                exps.push((b + d).to_string());
            }
        }
    }
    for n in [10, 20, 50, 200] {
        exps.push("9".repeat(n));
        exps.push("0".repeat(n) + "5");
        exps.push("0".repeat(n));
    }
    let heads = ["0", "-0", "0.0", "1", "-1", ".1", "100000000000000000000", "0.00000000000000000000001", "00000000000000000000000000000", "-0.00000000000000000000000000000000000", "9999999999999999999999999999999999999999999999999999999999999999999999999999999999999999"];
    let slow = |h: &str, e: &str| {
        let v: i64 = e.parse().unwrap_or(i64::MAX);
        (30000..79200).contains(&v) && h.bytes().any(|c| c.is_ascii_digit() && c != b'0')
    };
    ctx.explore("zero and non-zero literals x exponents around the bounds of every integer type", exps.len(), |l, i| {
        for h in heads {
            if slow(h, &exps[i]) && !ctx.thorough {
                if h.len() > 20 {
                    continue;
                }
                l.check(lit(&format!("{h}e-{}", exps[i])));
                continue;
            }
            for s in ["e", "e-", "E+", "e+-", "e--"] {
                l.check(all(&format!("{h}{s}{}", exps[i])));
                l.check(all(&format!("{h}{s}{}.", exps[i])));
            }
        }
    });
    ctx.explore("zeros: every number of digits and position of the radix point, every sign", 100, |l, n| {
        for p in 0..=n + 1 {
            let mut t = "0".repeat(n);
            if p <= n {
                t.insert(p, '.');
            }
            for s in ["", "+", "-"] {
                for e in ["", "e5", "E-99999", "e", "e+"] {
                    l.check(all(&format!("{s}{t}{e}")));
                }
            }
        }
    });
}
