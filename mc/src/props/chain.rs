//! S01, S02: sequences of operations.
use super::{c1, c2, c3, cn};
use crate::alpha::*;
use crate::big::Big;
use crate::case::{bt, fb, parse_bits, Case, Ext, Op, Out};
use crate::model::{self as m, enc, neg, Bits};
use crate::run::{Ctx, Local};
use std::sync::Mutex;

type St = (Bits, Bits);

/// One instruction of the two-register machine: the case to evaluate and the
/// state that follows from its result.
type Instr = (&'static str, fn(St) -> Case, fn(St, Bits) -> St);

const fn to_x(s: St, r: Bits) -> St {
    (r, s.1)
}
const fn to_y(s: St, r: Bits) -> St {
    (s.0, r)
}
const ARITH: &[Instr] = &[
    ("x=x+y", |(x, y)| c2(Op::Add, x, y), to_x),
    ("x=x-y", |(x, y)| c2(Op::Sub, x, y), to_x),
    ("y=y-x", |(x, y)| c2(Op::Sub, y, x), to_y),
    ("x=x*y", |(x, y)| c2(Op::Mul, x, y), to_x),
    ("x=x/y", |(x, y)| c2(Op::Div, x, y), to_x),
    ("y=y/x", |(x, y)| c2(Op::Div, y, x), to_y),
    ("x=x%y", |(x, y)| c2(Op::Rem, x, y), to_x),
    ("y=y%x", |(x, y)| c2(Op::Rem, y, x), to_y),
    ("x=x*y+x", |(x, y)| c3(Op::Fma, x, y, x), to_x),
    ("y=x*x-y", |(x, y)| c2(Op::SquareAdd, x, neg(y)), to_y),
    ("y=y*x-1", |(x, y)| c3(Op::Fma, y, x, neg(m::ONE)), to_y),
    ("x=x*x+y*y", |(x, y)| c2(Op::Sos, x, y), to_x),
    ("x=sqrt(|x|)", |(x, _)| c1(Op::Sqrt, m::abs(x)), to_x),
    ("x=1/x", |(x, _)| c1(Op::Recip, x), to_x),
    ("y=trunc(x)", |(x, _)| c1(Op::Trunc, x), to_y),
    ("y=round(x)", |(x, _)| c1(Op::RoundEven, x), to_y),
    ("y=ulp(x)", |(x, _)| c1(Op::Ulp, x), to_y),
    ("x=2x", |(x, _)| c1(Op::Mul2, x), to_x),
    ("y=y*2^237", |(_, y)| cn(Op::MulPow2, y, 237), to_y),
    ("y=y/2^262000", |(_, y)| cn(Op::DivPow2, y, 262000), to_y),
    ("y=-y", |(_, y)| c1(Op::Neg, y), to_y),
    ("y=x", |(x, _)| c1(Op::BitsRt, x), to_y),
    ("x=y", |(_, y)| c1(Op::BitsRt, y), to_x),
];

fn fun(f: &str, x: Bits) -> Case {
    Case::X(&super::math::Fun1, format!("{f} {}", bt(x)))
}
const FUNS: &[Instr] = &[
    ("sin", |(x, _)| fun("sin", x), to_x),
    ("cos", |(x, _)| fun("cos", x), to_x),
    ("tan", |(x, _)| fun("tan", x), to_x),
    ("asin", |(x, _)| fun("asin", x), to_x),
    ("acos", |(x, _)| fun("acos", x), to_x),
    ("atan", |(x, _)| fun("atan", x), to_x),
    ("ln", |(x, _)| fun("ln", m::abs(x)), to_x),
    ("log2", |(x, _)| fun("log2", m::abs(x)), to_x),
    ("log10", |(x, _)| fun("log10", m::abs(x)), to_x),
    ("to_degrees", |(x, _)| fun("to_degrees", x), to_x),
    ("to_radians", |(x, _)| fun("to_radians", x), to_x),
    ("sqrt", |(x, _)| c1(Op::Sqrt, m::abs(x)), to_x),
    ("recip", |(x, _)| c1(Op::Recip, x), to_x),
    ("x*x", |(x, _)| c1(Op::Square, x), to_x),
    ("x-1", |(x, _)| c2(Op::Sub, x, m::ONE), to_x),
    ("x+1", |(x, _)| c2(Op::Add, x, m::ONE), to_x),
    ("fract", |(x, _)| c1(Op::Fract, x), to_x),
    ("neg", |(x, _)| c1(Op::Neg, x), to_x),
];

/// Breadth first over all states reachable within `depth` instructions; every
/// transition is taken on the code and on the model, every state only once.
fn bfs(ctx: &Ctx, name: &str, init: Vec<St>, prog: &[Instr], depth: usize) {
    let mut seen: std::collections::HashSet<St> = init.iter().cloned().collect();
    let mut front = init;
    for d in 1..=depth {
        let next: Mutex<Vec<St>> = Mutex::new(vec![]);
        const B: usize = 64;
        ctx.explore(&format!("{name}: instruction {d}"), front.len().div_ceil(B), |l: &mut Local, i| {
            let mut v = vec![];
            for &s in &front[i * B..(i * B + B).min(front.len())] {
                for (_, case, then) in prog {
                    // the value the code computed goes on, so that results
                    // the model leaves open do not end the sequence
                    if let Out::F(r) | Out::Raw(r) = l.step(case(s)) {
                        if !m::is_nan(r) && d < depth {
                            v.push(then(s, r));
                        }
                    }
                }
            }
            if d < depth {
                v.sort_unstable();
                v.dedup();
                next.lock().unwrap().extend(v);
            }
        });
        let mut n = next.into_inner().unwrap();
        n.sort_unstable();
        n.dedup();
        n.retain(|s| seen.insert(*s));
        front = n;
    }
}

fn seeds() -> Vec<Bits> {
    vec![
        m::ONE,
        enc(true, BIAS + 1, bit(235)),                                        // -3
        enc(false, BIAS + 3, bit(234)),                                       // 10
        m::div(m::ONE, enc(false, BIAS + 1, bit(235))),                       // 1/3
        m::div(m::ONE, enc(true, BIAS + 3, bit(234))),                        // -1/10
        m::sqrt(enc(false, BIAS + 1, (0, 0))),                                // sqrt 2
        enc(false, BIAS + 236, mask(235)),                                    // 2^237-3
        enc(false, BIAS, (0, 1)),                                             // 1+eps
        enc(true, BIAS - 1, mask(236)),                                       // -(1-eps/2)
        enc(false, 1, (0, 0)),                                                // smallest normal
        (0, 1),                                                               // smallest subnormal
        (5 << 100, 3),                                                        // subnormal
        m::MAXF,
        enc(true, BIAS + 131071, irregular()[0]),
        enc(false, BIAS - 131072, irregular()[1]),
        m::ZERO,
    ]
}

pub fn machine(ctx: &Ctx) {
    let s = seeds();
    let init: Vec<St> = s.iter().flat_map(|x| s.iter().map(move |y| (*x, *y))).collect();
    ctx.note(format!("{} initial states, {} instructions", init.len(), ARITH.len()));
    bfs(ctx, "arithmetic", init, ARITH, if ctx.thorough { 5 } else { 4 });
    let init: Vec<St> = s.iter().map(|x| (*x, m::ZERO)).collect();
    bfs(ctx, "functions", init, FUNS, if ctx.thorough { 5 } else { 4 });
}

/// Programs of several operations whose results satisfy an exact identity.
pub struct Eft;
fn exact_sum(v: &[(bool, Big, i64)]) -> (bool, Big, i64) {
    let e = v.iter().map(|x| x.2).min().unwrap();
    let (mut p, mut n) = (Big::zero(), Big::zero());
    for x in v {
        let y = x.1.shl(x.2 - e);
        if x.0 { n = n.add(&y) } else { p = p.add(&y) }
    }
    if p.cmp(&n) == core::cmp::Ordering::Less {
        (true, n.sub(&p), e)
    } else {
        (false, p.sub(&n), e)
    }
}
fn minus(x: Bits) -> (bool, Big, i64) {
    m::dec(neg(x))
}
fn prod(x: Bits, y: Bits) -> (bool, Big, i64) {
    let (a, b) = (m::dec(x), m::dec(y));
    (a.0 ^ b.0, a.1.mul(&b.1), a.2 + b.2)
}
/// the exact value as an f256; None if it is not representable
fn exact(v: &(bool, Big, i64)) -> Option<Bits> {
    let r = m::round(v.0, &v.1, v.2, false);
    if !m::is_fin(r) {
        return None;
    }
    exact_sum(&[v.clone(), minus(r)]).1.is_zero().then_some(r)
}
impl Ext for Eft {
    fn name(&self) -> &'static str {
        "eft"
    }
    fn model(&self, arg: &str) -> Out {
        let w: Vec<&str> = arg.split(' ').collect();
        let (x, y) = (parse_bits(w[1]).unwrap(), parse_bits(w[2]).unwrap());
        let fin = |r: Bits, e: (bool, Big, i64)| Out::F2(r, exact(&e).unwrap_or(m::round(e.0, &e.1, e.2, false)));
        match w[0] {
            "two_sum" | "fast_two_sum" => {
                let s = m::add(x, y);
                fin(s, exact_sum(&[m::dec(x), m::dec(y), minus(s)]))
            }
            "two_prod" => {
                let p = m::mul(x, y);
                fin(p, exact_sum(&[prod(x, y), minus(p)]))
            }
            "div_rest" => {
                let q = m::div(x, y);
                fin(q, exact_sum(&[m::dec(x), prod(neg(q), y)]))
            }
            "sqrt_rest" => {
                let s = m::sqrt(x);
                fin(s, exact_sum(&[m::dec(x), prod(neg(s), s)]))
            }
            // int + frac = x, |x - round x| <= 1/2, floor <= x <= ceil
            "parts" => Out::S("true true true true".into()),
            // x - x % y is a multiple of y, computed exactly by fma
            "rem_rest" => Out::S("true true true".into()),
            _ => panic!(),
        }
    }
    fn impl_eval(&self, arg: &str) -> Out {
        let w: Vec<&str> = arg.split(' ').collect();
        let (x, y) = (fb(parse_bits(w[1]).unwrap()), fb(parse_bits(w[2]).unwrap()));
        let f2 = |a: f256::f256, b: f256::f256| Out::F2(a.to_bits(), b.to_bits());
        match w[0] {
            "two_sum" => {
                let s = x + y;
                let bb = s - x;
                f2(s, (x - (s - bb)) + (y - bb))
            }
            "fast_two_sum" => {
                let (a, b) = if x.abs() >= y.abs() { (x, y) } else { (y, x) };
                let s = a + b;
                f2(s, b - (s - a))
            }
            "two_prod" => {
                let p = x * y;
                f2(p, x.mul_add(y, -p))
            }
            "div_rest" => {
                let q = x / y;
                f2(q, (-q).mul_add(y, x))
            }
            "sqrt_rest" => {
                let s = x.sqrt();
                f2(s, (-s).mul_add(s, x))
            }
            "parts" => {
                let (i, f) = x.split();
                let half = f256::f256::ONE.div2();
                let neg = |d: f256::f256| d.is_sign_negative() && !d.eq_zero();
                let r = x.round();
                let e = x.round_tie_even();
                Out::S(format!(
                    "{} {} {} {}",
                    i + f == x && i == x.trunc() && f == x.fract() && x - i == f,
                    (x - r).abs() <= half && (x - e).abs() <= half,
                    !neg(x - x.floor()) && !neg(x.ceil() - x) && x.ceil() == -((-x).floor()),
                    i.fract().eq_zero() && r.fract().eq_zero() && e.fract().eq_zero()
                ))
            }
            "rem_rest" => {
                let r = x % y;
                // the quotient, exact if |x / y| < 2^234
                let q = ((x - r) / y).round_tie_even();
                let big = q.abs() >= f256::f256::ONE.mul_pow2(234);
                Out::S(format!(
                    "{} {} {}",
                    r.abs() < y.abs(),
                    r.eq_zero() || r.is_sign_negative() == x.is_sign_negative(),
                    big || (-q).mul_add(y, x) == r
                ))
            }
            _ => panic!(),
        }
    }
}

pub fn identities(ctx: &Ctx) {
    let eft = |f: &str, x: Bits, y: Bits| Case::X(&Eft, format!("{f} {} {}", bt(x), bt(y)));
    let fs = fracs_m();
    let fr = if ctx.thorough { fracs_l() } else { fracs_m() };
    // second operand 2^-d below the first, at several places of the range
    let ds: Vec<i64> = if ctx.thorough { (0..=480).collect() } else { (0..=8).chain((12..230).step_by(9)).chain(230..=242).chain([300, 473, 474, 475, 480]).collect() };
    let places = [BIAS, BIAS + 200_000, 1200, 700];
    ctx.explore("sums: significands x significands x distance", ds.len() * fr.len(), |l, i| {
        let (d, f) = (ds[i / fr.len()], fr[i % fr.len()]);
        for (n, &g) in fs.iter().enumerate() {
            let be = places[n % places.len()];
            for s in [false, true] {
                let (x, y) = (enc(false, be, f), enc(s, be - d, g));
                l.check(eft("two_sum", x, y));
                l.check(eft("two_sum", y, x));
                l.check(eft("fast_two_sum", x, y));
            }
        }
    });
    // products and quotients, far enough from the lower end for the rest to exist
    let pl = [(BIAS, BIAS), (BIAS + 120_000, BIAS - 9), (BIAS - 130_000, BIAS + 40_000), (BIAS + 262_000, BIAS - 1), (200_000, BIAS - 100)];
    let st = if ctx.thorough { 1 } else { 3 };
    ctx.explore("products and quotients: significands x significands", fr.len(), |l, i| {
        for (j, &g) in fr.iter().enumerate() {
            if (i + j) % st != 0 {
                continue;
            }
            let (ex, ey) = pl[(i + j / st) % pl.len()];
            let (x, y) = (enc(j & 1 == 1, ex, fr[i]), enc(i & 1 == 1, ey, g));
            l.check(eft("two_prod", x, y));
            l.check(eft("div_rest", x, y));
            l.check(eft("div_rest", m::mul(x, y), y));
            l.check(eft("rem_rest", x, y));
        }
    });
    ctx.explore("remainders: significands x significands x distance", ds.len() * fs.len(), |l, i| {
        let (d, f) = (ds[i / fs.len()], fs[i % fs.len()]);
        for (n, &g) in fs.iter().enumerate() {
            let be = places[n % places.len()];
            l.check(eft("rem_rest", enc(n & 2 == 2, be, f), enc(n & 1 == 1, be - d, g)));
        }
    });
    let es: Vec<i64> = exps_m().into_iter().filter(|e| *e > 500 && *e < EXPMAX).collect();
    ctx.explore("square roots", es.len() * fr.len(), |l, i| {
        let x = enc(false, es[i / fr.len()], fr[i % fr.len()]);
        l.check(eft("sqrt_rest", x, m::ZERO));
        let y = m::mul(x, x);
        if m::is_fin(y) && m::bexp(y) > 500 {
            l.check(eft("sqrt_rest", y, m::ZERO));
        }
    });
    let es: Vec<i64> = (BIAS - 4..=BIAS + 240).chain([0, 1, EXPMAX - 1]).collect();
    ctx.explore("integral and fractional part: exponents x significands", es.len() * fr.len(), |l, i| {
        let x = enc(i & 1 == 1, es[i / fr.len()], fr[i % fr.len()]);
        l.check(eft("parts", x, m::ZERO));
        l.check(eft("parts", neg(x), m::ZERO));
    });
}
