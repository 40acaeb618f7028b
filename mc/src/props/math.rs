//! H01..H06 (elementary functions) and G01 (constants)
use crate::alpha::*;
use crate::big::Big;
use crate::case::{bt, fb, parse_bits, Case, Ext, Out};
use crate::model::{self as m, enc, Bits};
use crate::mp::{self, F};
use crate::run::{Ctx, Local};
use std::cell::RefCell;

pub const FNS: &[&str] =
    &["sin", "cos", "tan", "asin", "acos", "atan", "ln", "log2", "log10", "to_degrees", "to_radians"];
fn sin_cos(x: Bits) -> (F, F) {
    thread_local! {
        static LAST: RefCell<Option<(Bits, F, F)>> = const { RefCell::new(None) };
    }
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if let Some((y, s, c)) = &*l {
            if *y == x {
                return (s.clone(), c.clone());
            }
        }
        let (s, c) = mp::sin_cos(x);
        *l = Some((x, s.clone(), c.clone()));
        (s, c)
    })
}
fn ln(x: Bits) -> F {
    thread_local! {
        static LAST: RefCell<Option<(Bits, F)>> = const { RefCell::new(None) };
    }
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if let Some((y, s)) = &*l {
            if *y == x {
                return s.clone();
            }
        }
        let s = mp::ln(&F::from_bits(x));
        *l = Some((x, s.clone()));
        s
    })
}
pub fn oracle(f: &str, x: Bits) -> F {
    let v = || F::from_bits(x);
    match f {
        "sin" => sin_cos(x).0,
        "cos" => sin_cos(x).1,
        "tan" => {
            let (s, c) = sin_cos(x);
            s.div(&c)
        }
        "asin" => mp::asin(&v()),
        "acos" => mp::acos(&v()),
        "atan" => mp::atan(&v()),
        "ln" => ln(x),
        "log2" => ln(x).div(mp::ln2()),
        "log10" => ln(x).div(mp::ln10()),
        "to_degrees" => v().mul(&F::int(180)).div(mp::pi()),
        "to_radians" => v().mul(mp::pi()).div_int(180),
        _ => unreachable!(),
    }
}
pub fn call(f: &str, x: Bits) -> Bits {
    let x = fb(x);
    match f {
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "ln" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "to_degrees" => x.to_degrees(),
        "to_radians" => x.to_radians(),
        _ => unreachable!(),
    }
    .to_bits()
}
/// arguments with a result that is neither NaN nor fixed by convention
pub fn domain(f: &str, x: Bits) -> bool {
    if !m::is_fin(x) || m::is_zero(x) {
        return false;
    }
    match f {
        "asin" | "acos" => m::abs(x) <= m::ONE,
        "ln" | "log2" | "log10" => !m::sgn(x),
        _ => true,
    }
}
fn out(w: &F) -> Out {
    let (a, b) = w.nearest();
    if a == b {
        Out::F(a)
    } else {
        Out::Either(a, b)
    }
}
fn half_pi(neg: bool) -> Bits {
    let mut h = mp::pi().clone().scale(-1);
    h.neg = neg;
    h.round().unwrap()
}
/// a function of one argument: "sin BITS"
pub struct Fun1;
impl Ext for Fun1 {
    fn name(&self) -> &'static str {
        "fun"
    }
    fn model(&self, arg: &str) -> Out {
        let (f, x) = arg.split_once(' ').unwrap();
        let x = parse_bits(x).unwrap();
        if !domain(f, x) {
            if m::is_nan(x) {
                return Out::F(m::NAN);
            }
            return match f {
                "cos" if m::is_zero(x) => Out::F(m::ONE),
                "acos" if m::is_zero(x) => Out::F(half_pi(false)),
                "atan" if m::is_inf(x) => Out::F(half_pi(m::sgn(x))),
                "to_degrees" | "to_radians" => Out::Raw(x),
                "sin" | "tan" | "asin" | "atan" if m::is_zero(x) => Out::Raw(x),
                _ => Out::F(m::NAN),
            };
        }
        let w = oracle(f, x);
        match f {
            // sin / cos, three roundings
            "tan" => Out::Near(w.round().unwrap(), 2),
            // to_degrees is specified by its tests to use the rounded value of pi
            "to_degrees" | "to_radians" => {
                if w.top() > 262145 { Out::F(m::inf(w.neg)) } else { Out::Near(w.round().unwrap(), 1) }
            }
            _ => out(&w),
        }
    }
    fn impl_eval(&self, arg: &str) -> Out {
        let (f, x) = arg.split_once(' ').unwrap();
        let x = parse_bits(x).unwrap();
        Out::F(call(f, x))
    }
}
/// both results of sin_cos are those of sin and cos
pub struct SinCos;
impl Ext for SinCos {
    fn name(&self) -> &'static str {
        "sin_cos"
    }
    fn model(&self, arg: &str) -> Out {
        let x = parse_bits(arg).unwrap();
        if !m::is_fin(x) {
            return Out::S("NaN NaN".into());
        }
        let t = |w: &F| {
            let (a, b) = w.nearest();
            if a == b { vec![a] } else { vec![a, b] }
        };
        let (s, c) = if m::is_zero(x) {
            (vec![x], vec![m::ONE])
        } else {
            let (s, c) = sin_cos(x);
            (t(&s), t(&c))
        };
        Out::OneOf(s.iter().flat_map(|a| c.iter().map(move |b| format!("{} {}", bt(*a), bt(*b)))).collect())
    }
    fn impl_eval(&self, arg: &str) -> Out {
        let (s, c) = fb(parse_bits(arg).unwrap()).sin_cos();
        let t = |x: f256::f256| if x.is_nan() { "NaN".to_string() } else { bt(x.to_bits()) };
        Out::S(format!("{} {}", t(s), t(c)))
    }
}
pub struct Atan2;
impl Ext for Atan2 {
    fn name(&self) -> &'static str {
        "atan2"
    }
    fn model(&self, arg: &str) -> Out {
        let (y, x) = arg.split_once(' ').unwrap();
        let (y, x) = (parse_bits(y).unwrap(), parse_bits(x).unwrap());
        if m::is_nan(x) || m::is_nan(y) {
            return Out::F(m::NAN);
        }
        let pi4 = |n: i64| {
            let mut w = mp::pi().mul(&F::int(n)).scale(-2);
            w.neg = m::sgn(y);
            w
        };
        if m::is_zero(y) {
            // the sign of a zero y is not documented to matter
            return if m::is_zero(x) || !m::sgn(x) {
                Out::AnyZero
            } else {
                let p = pi4(4).abs().round().unwrap();
                Out::Either(p, m::neg(p))
            };
        }
        let n = match (m::is_inf(y), m::is_inf(x), m::sgn(x)) {
            (true, true, false) => 1,
            (true, true, true) => 3,
            (true, false, _) => 2,
            (false, true, false) => return Out::Raw(m::zero(m::sgn(y))),
            (false, true, true) => 4,
            _ if m::is_zero(x) => 2,
            _ => 0,
        };
        if n > 0 {
            return Out::F(pi4(n).round().unwrap());
        }
        let a = mp::atan(&F::from_bits(y).div(&F::from_bits(x)).abs());
        let mut w = if m::sgn(x) { mp::pi().sub(&a) } else { a };
        w.neg = m::sgn(y);
        out(&w)
    }
    fn impl_eval(&self, arg: &str) -> Out {
        let (y, x) = arg.split_once(' ').unwrap();
        Out::F(fb(parse_bits(y).unwrap()).atan2(&fb(parse_bits(x).unwrap())).to_bits())
    }
}

fn f1(l: &mut Local, f: &str, x: Bits) {
    l.check(Case::X(&Fun1, format!("{f} {}", bt(x))));
}
fn pm(l: &mut Local, f: &str, x: Bits) {
    f1(l, f, x);
    f1(l, f, m::neg(x));
}
fn trig(l: &mut Local, x: Bits) {
    for x in [x, m::neg(x)] {
        f1(l, "sin", x);
        f1(l, "cos", x);
        l.check(Case::X(&SinCos, bt(x)));
    }
}
/// the value n places further
fn step(x: Bits, n: i64) -> Bits {
    let b = Big::from_hilo(x.0, x.1);
    if n < 0 { b.sub(&Big::from_u64(-n as u64)) } else { b.add_u64(n as u64) }.to_hilo()
}
/// the values around w
fn around(w: &F, n: i64) -> Vec<Bits> {
    let c = w.nearest().0;
    (-n..=n).map(|i| step(c, i)).collect()
}
/// every exponent from 2^-700 to 2^700, a grid over the whole range
fn exps(ctx: &Ctx, n: usize) -> Vec<i64> {
    let mut v: Vec<i64> = (BIAS - 700..BIAS + 700).collect();
    let n = if ctx.thorough { (n * 16).min(EXPMAX as usize) } else { n };
    v.extend((0..n as i64).map(|i| i * EXPMAX / n as i64));
    v.extend(exps_m());
    v.sort();
    v.dedup();
    v
}
fn fracs(ctx: &Ctx) -> Vec<Bits> {
    if ctx.thorough { fracs_l() } else { fracs_m() }
}

pub fn logs(ctx: &Ctx) {
    const L: [&str; 3] = ["ln", "log2", "log10"];
    let sp = specials();
    ctx.explore("specials, with their domain", sp.len(), |l, i| {
        for f in L {
            f1(l, f, sp[i]);
        }
    });
    let (es, fs) = (exps(ctx, 33000), fracs_s());
    ctx.explore("exponents of the whole range x significands", es.len(), |l, i| {
        for fr in &fs {
            for f in L {
                f1(l, f, enc(false, es[i], *fr));
            }
        }
    });
    let fl = fracs_l();
    ctx.explore("all significand patterns around 1", fl.len(), |l, i| {
        for e in [-3, -2, -1, 0, 1, 2, 17] {
            for f in L {
                f1(l, f, enc(false, BIAS + e, fl[i]));
            }
        }
    });
    // the algorithm factors the argument into terms 1 + 2^-n
    ctx.explore("(1 + 2^-i)(1 + 2^-j) and neighbours, i, j <= 240", 241, |l, i| {
        let one = F::int(1);
        let a = one.add(&one.clone().scale(-(i as i64)));
        for j in i..241 {
            let b = a.mul(&one.add(&one.clone().scale(-(j as i64))));
            for x in around(&b, 1) {
                for f in L {
                    f1(l, f, x);
                }
            }
        }
    });
    ctx.explore("1 - 2^-i + d*2^-236", 237, |l, i| {
        for d in -4..=4 {
            let x = step(F::int(1).sub(&F::int(1).scale(-(i as i64) - 1)).round().unwrap(), d);
            for f in L {
                f1(l, f, x);
            }
        }
    });
    ctx.explore("powers of ten and two, and their neighbours", 800, |l, i| {
        let p = Big::pow(10, i as u64);
        let k = 65 * i as i64 - 26000;
        for w in [F::new(false, p.clone(), 0), F::int(1).div(&F::new(false, p, 0)), F::int(1).scale(k)] {
            for x in around(&w, 1) {
                for f in L {
                    f1(l, f, x);
                }
            }
        }
    });
}

pub fn sines(ctx: &Ctx) {
    let sp = specials();
    ctx.explore("specials", sp.len(), |l, i| trig(l, m::abs(sp[i])));
    common_trig(ctx, &trig);
}
pub fn tangent(ctx: &Ctx) {
    let sp = specials();
    ctx.explore("specials", sp.len(), |l, i| pm(l, "tan", m::abs(sp[i])));
    common_trig(ctx, &|l, x| pm(l, "tan", x));
}
fn common_trig(ctx: &Ctx, trig: &(dyn Fn(&mut Local, Bits) + Sync)) {
    let (es, fs) = (exps(ctx, 33000), fracs_s());
    ctx.explore("exponents of the whole range x significands", es.len(), |l, i| {
        for f in &fs {
            trig(l, enc(false, es[i], *f));
        }
    });
    let fl = fracs(ctx);
    ctx.explore("significand patterns around the changes of algorithm", fl.len(), |l, i| {
        for e in [-250, -238, -120, -119, -118, -117, -60, -9, -8, -3, -2, -1, 0, 1, 2, 3, 4, 100, 236, 237, 238, 239, 240, 241, 242, 500, 262142] {
            trig(l, enc(false, BIAS + e, fl[i]));
        }
    });
    let n = if ctx.thorough { 400000 } else { 20000 };
    ctx.explore("multiples of pi/4 and their neighbours", n, |l, i| {
        for x in around(&mp::pi().mul(&F::int(i as i64 + 1)).scale(-2), 2) {
            trig(l, x);
        }
    });
    ctx.explore("multiples of 1/256 and their neighbours", 2200, |l, i| {
        for x in around(&F::int(i as i64 + 1).scale(-8), 1) {
            trig(l, x);
        }
    });
    let qs: Vec<i64> = (-238..EXPMAX - BIAS - 236)
        .collect();
    ctx.explore("the numbers of an exponent closest to multiples of pi/2", qs.len(), |l, i| {
        for k in mp::near_multiples(qs[i]) {
            let x = m::round(false, &k, qs[i], false);
            trig(l, x);
        }
    });
    let d = if ctx.thorough { 500 } else { 4001 };
    let qs: Vec<i64> = (-238..EXPMAX - BIAS - 236).filter(|q| *q < 64 || q % d == 0).collect();
    ctx.explore("numbers of an exponent at every order of distance from multiples of pi/2", qs.len(), |l, i| {
        for k in mp::graded_multiples(qs[i]) {
            let x = m::round(false, &k, qs[i], false);
            trig(l, x);
        }
    });
}

pub fn inverse(ctx: &Ctx) {
    let sp = specials();
    const L: [&str; 3] = ["asin", "acos", "atan"];
    ctx.explore("specials, with their domain", sp.len(), |l, i| {
        for f in L {
            f1(l, f, sp[i]);
        }
    });
    let one = || F::int(1);
    ctx.explore("outside of [-1, 1]", 300, |l, i| {
        for x in [step(m::ONE, i as i64 + 1), enc(false, BIAS + i as i64, (0, 1)), enc(false, EXPMAX - 1 - i as i64, (0, 0))] {
            for f in L {
                pm(l, f, x);
            }
        }
    });
    let (es, fs) = (exps(ctx, 33000), fracs_s());
    ctx.explore("exponents of the whole range x significands", es.len(), |l, i| {
        for fr in &fs {
            for f in L {
                pm(l, f, enc(false, es[i], *fr));
            }
        }
    });
    let fl = fracs(ctx);
    ctx.explore("significand patterns around the changes of algorithm", fl.len(), |l, i| {
        for e in [-239, -238, -237, -236, -120, -119, -118, -117, -60, -9, -8, -3, -2, -1, 0, 1, 2, 60, 117, 118, 119, 120, 235, 236, 237, 238] {
            for f in L {
                pm(l, f, enc(false, BIAS + e, fl[i]));
            }
        }
    });
    let n = if ctx.thorough { 400000 } else { 20000 };
    ctx.explore("the numbers next to 1", n, |l, i| {
        for f in L {
            pm(l, f, step(m::ONE, -(i as i64)));
            pm(l, f, step(m::ONE, i as i64));
        }
    });
    ctx.explore("1 - d*2^-i", 237, |l, i| {
        for d in [1, 3, 5, 7] {
            for x in around(&one().sub(&F::int(d).scale(-(i as i64) - 3)), 1) {
                for f in L {
                    pm(l, f, x);
                }
            }
        }
    });
    // atan is tabulated at multiples of 1/256
    ctx.explore("arguments that reduce to a multiple of 1/256", 1024, |l, i| {
        let c = F::int(i as i64 + 1).scale(-8);
        let s = c.div(&one().add(&c.mul(&c)).sqrt());
        for (w, fs) in [(&c, &L[2..]), (&one().div(&c), &L[2..]), (&s, &L[..2]), (&one().sub(&s.mul(&s)).sqrt(), &L[..2])] {
            for x in around(w, 2) {
                for f in fs {
                    pm(l, f, x);
                }
            }
        }
    });
}

pub fn atan2(ctx: &Ctx) {
    let at = |l: &mut Local, y: Bits, x: Bits| {
        for y in [y, m::neg(y)] {
            for x in [x, m::neg(x)] {
                l.check(Case::X(&Atan2, format!("{} {}", bt(y), bt(x))));
            }
        }
    };
    let mut sp: Vec<Bits> = specials().iter().map(|x| m::abs(*x)).collect();
    sp.extend(cross(&[0, 1, BIAS - 1, BIAS, BIAS + 1, EXPMAX - 1], &fracs_s()));
    sp.sort();
    sp.dedup();
    ctx.explore("all ordered pairs from a boundary set, all signs", sp.len(), |l, i| {
        for x in &sp {
            at(l, sp[i], *x);
        }
    });
    let fs = fracs_s();
    let n = if ctx.thorough { 8000 } else { 2000 };
    ctx.explore("exponent differences", n, |l, i| {
        let d = i as i64 - n as i64 / 2;
        for (j, a) in fs.iter().enumerate() {
            for (k, b) in fs.iter().enumerate() {
                if ctx.thorough || (i + j + k) % 3 == 0 {
                    at(l, enc(false, BIAS + d, *a), enc(false, BIAS, *b));
                }
            }
        }
    });
    ctx.explore("quotients at the limits of the range", 1200, |l, i| {
        let d = i as i64;
        for a in &fs {
            // subnormal quotients
            at(l, enc(false, 1 + d, *a), enc(false, BIAS + 400, fs[i % fs.len()]));
            at(l, enc(false, BIAS - 400, *a), enc(false, EXPMAX - 1 - d, fs[i % fs.len()]));
        }
    });
    let fm = fracs_m();
    ctx.explore("pairs of significands in the same and in neighbouring binades", fm.len(), |l, i| {
        for b in &fm {
            for e in [-1, 0, 1] {
                at(l, enc(false, 1000 + e, fm[i]), enc(false, 1000, *b));
            }
        }
    });
    const D: [i64; 22] = [2, 7, 8, 9, 59, 60, 116, 117, 118, 119, 120, 121, 150, 180, 200, 220, 234, 235, 236, 237, 238, 239];
    let st = if ctx.thorough { 1 } else { 2 };
    ctx.explore("pairs of significands, quotients at changes of algorithm", fm.len() * D.len(), |l, i| {
        let (d, a) = (D[i % D.len()], fm[i / D.len()]);
        for (j, b) in fm.iter().enumerate() {
            if (i + j) % st == 0 {
                at(l, enc(false, BIAS - d, a), enc(false, BIAS, *b));
                at(l, enc(false, BIAS + 100_000, a), enc(false, BIAS + 100_000 - d, *b));
            }
        }
    });
    let n = if ctx.thorough { 200_000 } else { 4_000 };
    ctx.explore("points whose angle is close to a multiple of pi/n", n, |l, i| {
        // (cos w, sin w) rounded, w = pi/4·i/n
        let w = mp::pi().mul(&F::int(i as i64 + 1)).div_int(4 * n as u64);
        let (s, c) = mp::sin_cos_small(&w);
        for y in around(&s, 1) {
            for x in around(&c, 1) {
                at(l, y, x);
                at(l, x, y);
            }
        }
    });
    ctx.explore("multiples of 1/256 and their neighbours", 512, |l, i| {
        for c in around(&F::int(i as i64 + 1).scale(-8), 1) {
            at(l, c, m::ONE);
            at(l, m::ONE, c);
        }
    });
}

pub fn degrees(ctx: &Ctx) {
    const L: [&str; 2] = ["to_degrees", "to_radians"];
    let sp = specials();
    ctx.explore("specials", sp.len(), |l, i| {
        for f in L {
            f1(l, f, sp[i]);
        }
    });
    let n = if ctx.thorough { EXPMAX as usize } else { 40000 };
    let fs = fracs_s();
    ctx.explore("exponents of the whole range x significands", n, |l, i| {
        let e = i as i64 * EXPMAX / n as i64;
        for fr in &fs {
            for f in L {
                pm(l, f, enc(false, e, *fr));
            }
        }
    });
    let mut fl = fracs_l();
    fl.extend(fracs_2bit(&positions()));
    ctx.explore("all significand patterns at the limits and around 1", fl.len(), |l, i| {
        for e in [0, 1, 2, 5, 6, 7, BIAS - 1, BIAS, EXPMAX - 7, EXPMAX - 6, EXPMAX - 1] {
            for f in L {
                pm(l, f, enc(false, e, fl[i]));
            }
        }
    });
    ctx.explore("smallest subnormals, runs of all lengths", 237 * 64, |l, i| {
        let x = Big::from_u64(i as u64 % 64 + 1).shl(i as i64 / 64).to_hilo();
        if x < m::INF {
            for f in L {
                pm(l, f, x);
            }
        }
    });
    ctx.explore("whole degrees and multiples of pi/180", 1440, |l, i| {
        for x in around(&F::int(i as i64 + 1), 1) {
            pm(l, "to_radians", x);
        }
        for x in around(&mp::pi().mul(&F::int(i as i64 + 1)).div_int(180), 1) {
            pm(l, "to_degrees", x);
        }
    });
    ctx.explore("around the largest finite result", 4000, |l, i| {
        for x in around(&F::from_bits(m::MAXF).mul(mp::pi()).div_int(180), 0) {
            pm(l, "to_degrees", step(x, i as i64 - 2000));
        }
    });
}

/// a constant: "PI -"
pub struct Const;
const CONSTS: &[&str] = &[
    "PI", "TAU", "FRAC_3_PI_2", "FRAC_PI_2", "FRAC_PI_3", "FRAC_PI_4", "FRAC_PI_6", "FRAC_PI_8", "FRAC_1_PI",
    "FRAC_2_PI", "SQRT_PI", "FRAC_2_SQRT_PI", "SQRT_2", "FRAC_1_SQRT_2", "SQRT_5", "PHI", "GAMMA", "E", "EPSILON",
    "MAX", "MIN", "MIN_POSITIVE", "MIN_GT_ZERO", "NAN", "INFINITY", "NEG_INFINITY", "ZERO", "NEG_ZERO", "ONE",
    "NEG_ONE", "TWO", "TEN", "RADIX", "MANTISSA_DIGITS", "SIGNIFICANT_DIGITS", "DIGITS", "MAX_EXP", "MIN_EXP",
    "MAX_10_EXP", "MIN_10_EXP", "default",
];
impl Ext for Const {
    fn name(&self) -> &'static str {
        "const"
    }
    fn model(&self, arg: &str) -> Out {
        let pi = || mp::pi().clone();
        let i = F::int;
        let w = match arg {
            "PI" => pi(),
            "TAU" => pi().scale(1),
            "FRAC_3_PI_2" => pi().mul(&i(3)).scale(-1),
            "FRAC_PI_2" => pi().scale(-1),
            "FRAC_PI_3" => pi().div_int(3),
            "FRAC_PI_4" => pi().scale(-2),
            "FRAC_PI_6" => pi().div_int(6),
            "FRAC_PI_8" => pi().scale(-3),
            "FRAC_1_PI" => i(1).div(&pi()),
            "FRAC_2_PI" => i(2).div(&pi()),
            "SQRT_PI" => pi().sqrt(),
            "FRAC_2_SQRT_PI" => i(2).div(&pi().sqrt()),
            "SQRT_2" => i(2).sqrt(),
            "FRAC_1_SQRT_2" => i(1).div(&i(2).sqrt()),
            "SQRT_5" => i(5).sqrt(),
            "PHI" => i(1).add(&i(5).sqrt()).scale(-1),
            "GAMMA" => mp::gamma(),
            "E" => mp::e(),
            "EPSILON" => i(1).scale(-236),
            "MAX" => i(1).scale(237).sub(&i(1)).scale(262143 - 236),
            "MIN" => i(1).scale(237).sub(&i(1)).scale(262143 - 236).neg(),
            "MIN_POSITIVE" => i(1).scale(-262142),
            "MIN_GT_ZERO" => i(1).scale(-262142 - 236),
            "NAN" => return Out::F(m::NAN),
            "INFINITY" => return Out::F(m::INF),
            "NEG_INFINITY" => return Out::F(m::inf(true)),
            "ZERO" | "default" => return Out::Raw(m::ZERO),
            "NEG_ZERO" => return Out::Raw(m::zero(true)),
            "ONE" => i(1),
            "NEG_ONE" => i(-1),
            "TWO" => i(2),
            "TEN" => i(10),
            "RADIX" => return Out::I(2),
            "MANTISSA_DIGITS" | "SIGNIFICANT_DIGITS" => return Out::I(237),
            // as of f64: floor((p - 1)·log10 2)
            "DIGITS" => return Out::I(71),
            // as of f64: one more than the exponent of 1.f·2^e
            "MAX_EXP" => return Out::I(262144),
            "MIN_EXP" => return Out::I(-262141),
            "MAX_10_EXP" => {
                let w = mp::ln(&F::from_bits(m::MAXF)).div(mp::ln10());
                return Out::I(w.m.shift(w.e).to_u64() as i64);
            }
            "MIN_10_EXP" => {
                let w = mp::ln(&F::int(1).scale(-262142)).div(mp::ln10());
                return Out::I(-(w.m.shift(w.e).to_u64() as i64));
            }
            _ => unreachable!(),
        };
        Out::F(w.round().unwrap())
    }
    fn impl_eval(&self, arg: &str) -> Out {
        use f256::{consts as c, f256 as T};
        let v = match arg {
            "PI" => c::PI,
            "TAU" => c::TAU,
            "FRAC_3_PI_2" => c::FRAC_3_PI_2,
            "FRAC_PI_2" => c::FRAC_PI_2,
            "FRAC_PI_3" => c::FRAC_PI_3,
            "FRAC_PI_4" => c::FRAC_PI_4,
            "FRAC_PI_6" => c::FRAC_PI_6,
            "FRAC_PI_8" => c::FRAC_PI_8,
            "FRAC_1_PI" => c::FRAC_1_PI,
            "FRAC_2_PI" => c::FRAC_2_PI,
            "SQRT_PI" => c::SQRT_PI,
            "FRAC_2_SQRT_PI" => c::FRAC_2_SQRT_PI,
            "SQRT_2" => c::SQRT_2,
            "FRAC_1_SQRT_2" => c::FRAC_1_SQRT_2,
            "SQRT_5" => c::SQRT_5,
            "PHI" => c::PHI,
            "GAMMA" => c::GAMMA,
            "E" => c::E,
            "EPSILON" => T::EPSILON,
            "MAX" => T::MAX,
            "MIN" => T::MIN,
            "MIN_POSITIVE" => T::MIN_POSITIVE,
            "MIN_GT_ZERO" => T::MIN_GT_ZERO,
            "NAN" => T::NAN,
            "INFINITY" => T::INFINITY,
            "NEG_INFINITY" => T::NEG_INFINITY,
            "ZERO" => T::ZERO,
            "NEG_ZERO" => T::NEG_ZERO,
            "ONE" => T::ONE,
            "NEG_ONE" => T::NEG_ONE,
            "TWO" => T::TWO,
            "TEN" => T::TEN,
            "default" => T::default(),
            "RADIX" => return Out::I(T::RADIX as i64),
            "MANTISSA_DIGITS" => return Out::I(T::MANTISSA_DIGITS as i64),
            "SIGNIFICANT_DIGITS" => return Out::I(T::SIGNIFICANT_DIGITS as i64),
            "DIGITS" => return Out::I(T::DIGITS as i64),
            "MAX_EXP" => return Out::I(T::MAX_EXP as i64),
            "MIN_EXP" => return Out::I(T::MIN_EXP as i64),
            "MAX_10_EXP" => return Out::I(T::MAX_10_EXP as i64),
            "MIN_10_EXP" => return Out::I(T::MIN_10_EXP as i64),
            _ => unreachable!(),
        };
        Out::F(v.to_bits())
    }
}
pub fn constants(ctx: &Ctx) {
    ctx.explore("every constant", CONSTS.len(), |l, i| l.check(Case::X(&Const, CONSTS[i].into())));
}
pub fn measure(f: &'static str) {
    use std::collections::BTreeMap;
    use std::sync::{atomic::*, Mutex};
    let st: Mutex<BTreeMap<(i64, &str), (u64, f64, Bits)>> = Mutex::new(BTreeMap::new());
    let fs = fracs_m();
    let mut es: Vec<i64> = (BIAS - 600..BIAS + 700).collect();
    es.extend((0..500).map(|i| i * 1048));
    es.extend(exps_m());
    let nx = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = nx.fetch_add(1, Ordering::Relaxed);
                if i >= es.len() {
                    break;
                }
                for fr in &fs {
                    for sg in [false, true] {
                        let x = m::enc(sg, es[i], *fr);
                        if !domain(f, x) {
                            continue;
                        }
                        let w = oracle(f, x);
                        let r = w.round();
                        let g = match crate::run::guarded(|| call(f, x)) { Ok(g) => g, Err(_) => (u128::MAX, 0) };
                        let u = w.ulps(g);
                        let c = if g.0 == u128::MAX { "panic" } else if r.is_none() { "undecided" } else if r == Some(g) { "correct" } else if m::sgn(g) != w.neg { "sign" } else if u < 1.0 { "<1ulp" } else if u < 2.0 { "<2ulp" } else if u < 1e3 { "<1e3" } else { "bad" };
                        let b = match es[i] - BIAS { d if d < -700 => -1000, d if d > 700 => 1000, d => d.div_euclid(50) * 50 };
                        let mut l = st.lock().unwrap();
                        let t = l.entry((b, c)).or_insert((0, 0.0, x));
                        t.0 += 1;
                        if u > t.1 { t.1 = u; t.2 = x; }
                    }
                }
            });
        }
    });
    for (k, v) in st.lock().unwrap().iter() {
        println!("{f} e~{} {}: {} max {:.4} at {}", k.0, k.1, v.0, v.1, bt(v.2));
    }
}
