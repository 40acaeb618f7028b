//! A01..A08: arithmetic with exactly one rounding.
use super::{c1, c2, c3, cn};
use crate::alpha::*;
use crate::big::Big;
use crate::case::Op;
use crate::model::{self as m, enc, neg, Bits};
use crate::run::{Ctx, Local};

/// all pairs of special and boundary values, both signs
pub fn special_pairs(ctx: &Ctx, ops: &[Op]) {
    let mut v = specials();
    v.extend(both(&cross(&exps_s(), &fracs_s()[..4])));
    let n = v.len();
    ctx.explore("special and boundary pairs", n * n, |l, i| {
        for &op in ops {
            l.check(c2(op, v[i / n], v[i % n]));
        }
    });
}

/// States reachable from a few seeds by at most `depth` operations of a mixed
/// alphabet, computed with the model (breadth first, deduplicated).
pub fn reachable(depth: usize, cap: usize) -> Vec<Bits> {
    let seeds: Vec<Bits> = vec![
        m::ONE,
        enc(false, BIAS + 1, bit(235)),           // 3
        enc(false, BIAS - 4, fracs_s()[12]),      // ~0.1
        enc(false, 1, (0, 0)),                    // smallest normal
        (0, 1),                                   // smallest subnormal
        m::MAXF,
        enc(true, BIAS + 236, mask(235)),
    ];
    let mut seen: std::collections::HashSet<Bits> = seeds.iter().cloned().collect();
    let mut all = seeds.clone();
    let mut front = seeds.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for &x in &front {
            for &y in &seeds {
                for z in [m::add(x, y), m::sub(x, y), m::mul(x, y), m::div(x, y), m::div(y, x), m::rem(y, x), m::rem(x, y)] {
                    if m::is_fin(z) && seen.insert(z) {
                        next.push(z);
                    }
                }
            }
            for z in [m::sqrt(m::abs(x)), m::scale(x, -236), m::scale(x, -262142)] {
                if m::is_fin(z) && seen.insert(z) {
                    next.push(z);
                }
            }
        }
        all.extend(&next);
        front = next;
        if all.len() > cap {
            break;
        }
    }
    all.truncate(cap);
    all
}
pub fn reachable_pairs(ctx: &Ctx, ops: &[Op]) {
    let v = reachable(3, if ctx.thorough { 6000 } else { 1300 });
    let n = v.len();
    ctx.note(format!("reachable-state alphabet: {n} states"));
    ctx.explore("operation sequences: all pairs of states reached within 3 operations", n, |l, i| {
        for j in 0..n {
            for &op in ops {
                l.check(c2(op, v[i], v[j]));
            }
        }
    });
}

fn gaps() -> Vec<i64> {
    let mut v: Vec<i64> = (0..=262).collect();
    v.extend([
        300, 383, 384, 385, 474, 475, 511, 512, 513, 767, 768, 1000, 4095, 4096, 65535, 65536, 65537, 131072,
        262143, 262144, 400000, 524284, 524285,
    ]);
    v
}

pub fn add_sub(ctx: &Ctx) {
    special_pairs(ctx, &[Op::Add, Op::Sub]);
    let bases: Vec<i64> = vec![0, 1, 2, 236, 237, 238, BIAS, EXPMAX - 263, EXPMAX - 2, EXPMAX - 1];
    let g = gaps();
    let fa = fracs_m();
    let fb = if ctx.thorough { fracs_m() } else { fracs_s() };
    // exponent gap sweep: base = exponent of the larger or of the smaller operand
    ctx.explore("exponent-gap sweep", bases.len() * g.len() * 2, |l, i| {
        let b = bases[i / 2 % bases.len()];
        let d = g[i / 2 / bases.len()];
        let (ea, eb) = if i & 1 == 0 { (b, b - d) } else { (b + d, b) };
        if eb < 0 || ea >= EXPMAX {
            return;
        }
        for &f in &fa {
            let x = enc(false, ea, f);
            for &h in &fb {
                let y = enc(false, eb, h);
                l.check(c2(Op::Add, x, y));
                l.check(c2(Op::Sub, x, y));
                l.check(c2(Op::Sub, neg(y), x));
                l.check(c2(Op::Add, y, neg(x)));
            }
        }
    });
    // ties and near ties at every alignment
    let uppers: Vec<Bits> = irregular().into_iter().chain([(0, 0), fnot((0, 0)), mask(1), fnot(mask(1))]).collect();
    ctx.explore("ties and near-ties at every alignment", 240 * 6, |l, i| {
        let d = (i / 6) as u32 + 1;
        let base = [BIAS, d as i64 + 1, d as i64, EXPMAX - 1, d as i64 + 5, BIAS + 40][i % 6];
        let (ea, eb) = (base, base - d as i64);
        if eb < 0 {
            return;
        }
        for &u in &uppers {
            for &v in &uppers {
                for t in 0..5 {
                    // low d bits of the smaller operand
                    let low = match t {
                        0 => bit(d.min(236) - 1),
                        1 => mask(d.min(236) - 1),
                        2 => or(bit(d.min(236) - 1), (0, 1)),
                        3 => mask(d.min(236)),
                        _ => (0, 1),
                    };
                    let keep = fnot(mask(d.min(236)));
                    let f = or((u.0 & keep.0, u.1 & keep.1), low);
                    let y = enc(false, eb, f);
                    let x = enc(false, ea, v);
                    l.check(c2(Op::Add, x, y));
                    l.check(c2(Op::Sub, x, y));
                    l.check(c2(Op::Add, neg(y), x));
                }
            }
        }
    });
    // cancellation: nearly equal operands
    let fl = fracs_l();
    let es = [0i64, 1, 2, 100, 236, 237, 238, BIAS, EXPMAX - 1];
    ctx.explore("cancellation: nearly equal operands", fl.len() * es.len(), |l, i| {
        let e = es[i % es.len()];
        let f = fl[i / es.len()];
        let x = enc(false, e, f);
        let (fx, carry) = (x.1, x.0);
        let near = |k: i128| -> Bits {
            let (lo, o) = fx.overflowing_add_signed(k);
            (if o { if k < 0 { carry.wrapping_sub(1) } else { carry + 1 } } else { carry }, lo)
        };
        let mut ys: Vec<Bits> = [-3i128, -2, -1, 0, 1, 2, 3].iter().map(|&k| near(k)).filter(|y| !m::sgn(*y)).collect();
        for p in 0..FB {
            ys.push(xor(x, bit(p)));
        }
        for e2 in [e - 1, e + 1] {
            if e2 >= 0 && e2 < EXPMAX {
                for p in positions() {
                    ys.push(enc(false, e2, bit(p)));
                    ys.push(enc(false, e2, fnot(bit(p))));
                    ys.push(enc(false, e2, mask(p)));
                }
            }
        }
        for y in ys {
            if m::is_nan(y) {
                continue;
            }
            l.check(c2(Op::Sub, x, y));
            l.check(c2(Op::Add, neg(x), y));
            l.check(c2(Op::Add, x, y));
        }
    });
    reachable_pairs(ctx, &[Op::Add, Op::Sub]);
}

/// exponent pairs (ea, eb) whose product or quotient exponent hits `target`
fn exp_pairs(target: i64, div: bool) -> Vec<(i64, i64)> {
    // product: ea + eb - BIAS = target; quotient: ea - eb + BIAS = target
    let mut v = vec![];
    for ea in [1i64, 2, 237, BIAS / 2, BIAS - 1, BIAS, BIAS + 1, BIAS + BIAS / 2, EXPMAX - 2, EXPMAX - 1] {
        let eb = if div { ea + BIAS - target } else { target + BIAS - ea };
        if (1..EXPMAX).contains(&eb) {
            v.push((ea, eb));
        }
    }
    v
}
/// positive subnormals: leading bit at every position, several tails
pub fn subnormals() -> Vec<Bits> {
    let mut v = vec![];
    for p in 0..FB {
        v.push(bit(p));
        v.push(mask(p + 1));
        v.push(or(bit(p), bit(0)));
        let k = irregular()[2];
        let mk = mask(p);
        v.push(or(bit(p), (k.0 & mk.0, k.1 & mk.1)));
    }
    v.sort();
    v.dedup();
    v
}

fn result_targets() -> Vec<i64> {
    let mut t: Vec<i64> = (-242..=4).collect();
    t.extend([-1000, -300, -262142, 100, 1000, BIAS - 1, BIAS, BIAS + 1]);
    t.extend((EXPMAX - 4)..=(EXPMAX + 3));
    t
}

pub fn mul(ctx: &Ctx) {
    special_pairs(ctx, &[Op::Mul]);
    let targets = result_targets();
    let fa = fracs_m();
    let fb = if ctx.thorough { fracs_m() } else { fracs_s() };
    ctx.explore("result-exponent sweep (underflow, subnormal, overflow)", targets.len(), |l, i| {
        for (k, &(ea, eb)) in exp_pairs(targets[i], false).iter().enumerate() {
            for &f in &fa {
                for &h in &fb {
                    let s = k % 2 == 1;
                    l.check(c2(Op::Mul, enc(s, ea, f), enc(false, eb, h)));
                }
            }
        }
    });
    let sub = subnormals();
    let mut es = exps_m();
    for d in 0..260 {
        es.push(BIAS + d);
        es.push(EXPMAX - 1 - d);
        es.push(BIAS - d);
    }
    es.sort();
    es.dedup();
    let fs = fracs_s();
    ctx.explore("subnormal operands", sub.len(), |l, i| {
        for &e in &es {
            for &f in &fs[..7] {
                let y = enc(true, e, f);
                l.check(c2(Op::Mul, sub[i], y));
                l.check(c2(Op::Mul, y, sub[i]));
            }
        }
    });
    // two-bit fractions: every exact tie (1+2^-k)(1+2^-j), and neighbours
    ctx.explore("sparse significands: all pairs of bit positions", 236, |l, i| {
        for j in 0..236u32 {
            for (ea, eb) in [(BIAS, BIAS + 1), (BIAS / 2, BIAS - BIAS / 2 + 1 - 100)] {
                let (p, q) = (bit(i as u32), bit(j));
                for (x, y) in [
                    (p, q),
                    (or(p, (0, 1)), q),
                    (fnot(p), q),
                    (mask(i as u32), mask(j)),
                    (fnot(mask(i as u32)), fnot(mask(j))),
                    (fnot(mask(i as u32)), mask(j)),
                    (or(p, bit(235)), q),
                    (or(p, bit(235)), or(q, bit(235))),
                    (or(p, bit(120)), or(q, bit(64))),
                ] {
                    l.check(c2(Op::Mul, enc(false, ea, x), enc(true, eb, y)));
                }
            }
        }
    });
    let fl = fracs_l();
    ctx.explore("dense significand pairs", fl.len(), |l, i| {
        for j in 0..fl.len() {
            l.check(c2(Op::Mul, enc(false, BIAS, fl[i]), enc(false, BIAS + 3, fl[j])));
        }
    });
    reachable_pairs(ctx, &[Op::Mul]);
    squares(ctx);
}
fn squares(ctx: &Ctx) {
    let fl = fracs_l();
    let mut es = exps_m();
    for d in 0..126 {
        es.push(BIAS / 2 - d);
        es.push(BIAS / 2 + BIAS - 120 + d);
        es.push(BIAS / 2 + BIAS / 2 + d);
    }
    ctx.explore("square", es.len(), |l, i| {
        for &f in &fl {
            l.check(c1(Op::Square, enc(i & 1 == 1, es[i].min(EXPMAX), f)));
        }
    });
}

fn norm_sig(b: Bits) -> Big {
    let f = m::frac(b);
    Big::from_hilo(f.0 | 1 << 108, f.1)
}
fn sig_frac(x: &Big) -> Bits {
    let (h, l) = x.to_hilo();
    (h & FMASK.0, l)
}

pub fn div(ctx: &Ctx) {
    special_pairs(ctx, &[Op::Div]);
    let all = {
        let mut v = specials();
        v.extend(both(&cross(&exps_m(), &fracs_s())));
        v
    };
    ctx.explore("reciprocals", all.len(), |l, i| l.check(c1(Op::Recip, all[i])));
    let targets = result_targets();
    let fa = fracs_m();
    let fb = if ctx.thorough { fracs_m() } else { fracs_s() };
    ctx.explore("result-exponent sweep (underflow, subnormal, overflow)", targets.len(), |l, i| {
        for (k, &(ea, eb)) in exp_pairs(targets[i], true).iter().enumerate() {
            for &f in &fa {
                for &h in &fb {
                    let s = k % 2 == 1;
                    l.check(c2(Op::Div, enc(s, ea, f), enc(false, eb, h)));
                    if ctx.thorough {
                        l.check(c2(Op::Div, enc(s, ea, h), enc(false, eb, f)));
                    }
                }
            }
        }
    });
    let sub = subnormals();
    let mut es = exps_m();
    for d in 0..260 {
        es.push(BIAS + d);
        es.push(1 + d);
        es.push(BIAS - d);
    }
    es.sort();
    es.dedup();
    let fs = fracs_s();
    ctx.explore("subnormal operands", sub.len(), |l, i| {
        for &e in &es {
            for &f in &fs[..7] {
                let y = enc(true, e, f);
                l.check(c2(Op::Div, sub[i], y));
                l.check(c2(Op::Div, y, sub[i]));
            }
        }
    });
    // quotients straddling a rounding boundary: x = nearest(y * midpoint) and neighbours
    let fm = fracs_m();
    let fl = fracs_l();
    ctx.explore("near-tie quotients", fl.len(), |l, i| {
        let y = norm_sig(enc(false, 1, fl[i]));
        for &q in &fm {
            let q2 = norm_sig(enc(false, 1, q)).shl(1).add_u64(1); // 238-bit midpoint
            let p = y.mul(&q2);
            let sh = p.bits() - 237;
            let x0 = p.shr(sh);
            for k in 0..3u64 {
                let x = if k < 2 { x0.add_u64(k) } else { x0.sub(&Big::from_u64(1)) };
                if x.bits() != 237 {
                    continue;
                }
                l.check(c2(Op::Div, enc(false, BIAS + 7, sig_frac(&x)), enc(false, BIAS, fl[i])));
            }
            // quotient exactly representable, and one ulp off
            let q1 = norm_sig(enc(false, 1, q));
            let p = y.mul(&q1);
            let x0 = p.shr(p.bits() - 237);
            for k in 0..2u64 {
                let x = x0.add_u64(k);
                if x.bits() == 237 {
                    l.check(c2(Op::Div, enc(false, BIAS - 7, sig_frac(&x)), enc(true, BIAS, fl[i])));
                }
            }
        }
    });
    // exact ties exist only in the subnormal range: odd multiples of a short divisor
    ctx.explore("exact ties and near-ties of subnormal quotients", 235, |l, i| {
        let drop = i as i64 + 1; // bits lost
        for d in [1u64, 3, 5, 7, 255, 65537] {
            for &u in &irregular() {
                // q: a value with 237 - drop significant kept bits then '1' then zeros
                let kept = Big::from_hilo(u.0 | 1 << 108, u.1).shr(drop);
                for odd in [0u64, 1] {
                    let k = kept.shr(1).shl(1).add_u64(odd);
                    let q = k.shl(1).add_u64(1); // ...tie
                    let x = q.mul_u64(d);
                    if x.bits() > 237 {
                        continue;
                    }
                    // x * 2^(QMIN-1) / d = tie at the subnormal quantum; represent x, d with exponents
                    let mk = |v: &Big, e: i64| m::round(false, v, e, false);
                    for t in [0i64, 100] {
                        let a = mk(&x, m::QMIN - 1 + 400 + t);
                        let b = mk(&Big::from_u64(d), 400 + t);
                        l.check(c2(Op::Div, a, b));
                        for (da, db) in [(1i128, 0i128), (-1, 0), (0, 1), (0, -1)] {
                            let a2 = (a.0, a.1.wrapping_add_signed(da));
                            let b2 = (b.0, b.1.wrapping_add_signed(db));
                            l.check(c2(Op::Div, a2, b2));
                        }
                    }
                }
            }
        }
    });
    ctx.explore("dense significand pairs", fl.len(), |l, i| {
        for j in 0..fl.len() {
            l.check(c2(Op::Div, enc(false, BIAS, fl[i]), enc(false, BIAS - 3, fl[j])));
        }
    });
    reachable_pairs(ctx, &[Op::Div]);
}

pub fn rem(ctx: &Ctx) {
    special_pairs(ctx, &[Op::Rem]);
    let mut g: Vec<i64> = (-3..=600).collect();
    g.extend([700, 767, 768, 1000, 1023, 1024, 2047, 4096, 10007, 65536, 262143, 400001, 524285]);
    let bases = [1i64, 2, 200, 237, BIAS - 236, BIAS, EXPMAX - 700, EXPMAX - 1];
    let fa = if ctx.thorough { fracs_m() } else { fracs_s() };
    let fb = fracs_s();
    ctx.explore("exponent-gap sweep", g.len() * bases.len(), |l, i| {
        let eb = bases[i % bases.len()];
        let ea = eb + g[i / bases.len()];
        if ea >= EXPMAX || ea < 0 {
            return;
        }
        for (k, &f) in fa.iter().enumerate() {
            for &h in &fb {
                l.check(c2(Op::Rem, enc(k % 2 == 1, ea, f), enc(k % 3 == 1, eb, h)));
            }
        }
    });
    let sub = subnormals();
    ctx.explore("subnormal operands", sub.len(), |l, i| {
        for j in 0..sub.len() {
            l.check(c2(Op::Rem, sub[i], sub[j]));
        }
        for e in [1i64, 2, 3, 50, 236, 237, 238, 239, 300, 474, 475, 512, 1000, BIAS, EXPMAX - 1] {
            for &f in &fb {
                let x = enc(true, e, f);
                l.check(c2(Op::Rem, x, sub[i]));
                l.check(c2(Op::Rem, sub[i], x));
            }
        }
    });
    // exact multiples and multiples +- one ulp
    let fm = fracs_m();
    ctx.explore("exact multiples and their neighbours", fm.len(), |l, i| {
        for e in [1i64, 3, BIAS, EXPMAX - 260] {
            for keep in [1i64, 2, 8, 53, 64, 100, 128, 180, 236] {
                let y = norm_sig(enc(false, 1, fm[i])).shr(237 - keep);
                for n in [1u64, 2, 3, 5, 255, 65535, 1 << 40, u64::MAX] {
                    let x = y.mul_u64(n);
                    if x.bits() > 237 || y.is_zero() {
                        continue;
                    }
                    let yb = m::round(false, &y, m::QMIN + e, false);
                    let xb = m::round(n & 1 == 1, &x, m::QMIN + e, false);
                    for k in [-2i128, -1, 0, 1, 2] {
                        l.check(c2(Op::Rem, (xb.0, xb.1.wrapping_add_signed(k)), yb));
                        l.check(c2(Op::Rem, xb, (yb.0, yb.1.wrapping_add_signed(k))));
                    }
                }
            }
        }
    });
    let fl = fracs_l();
    ctx.explore("dense significand pairs", fl.len(), |l, i| {
        for j in 0..fl.len() {
            l.check(c2(Op::Rem, enc(true, BIAS + 7, fl[i]), enc(false, BIAS, fl[j])));
        }
    });
    reachable_pairs(ctx, &[Op::Rem]);
}

pub fn fma(ctx: &Ctx) {
    let mut sp = specials();
    sp.extend([enc(false, BIAS + 3, (0, 0)), enc(true, BIAS + 3, fracs_s()[11])]);
    let n = sp.len();
    ctx.explore("special and boundary triples", n * n, |l, i| {
        for &c in &sp {
            l.check(c3(Op::Fma, sp[i / n], sp[i % n], c));
        }
        l.check(c2(Op::SquareAdd, sp[i / n], sp[i % n]));
    });
    // product exponent vs addend exponent
    let fs = fracs_s();
    let fs5: Vec<Bits> = if ctx.thorough { fs.clone() } else { vec![fs[0], fs[1], fs[2], fs[6], fs[10]] };
    let ptargets: Vec<i64> = vec![-480, -240, -100, -2, 1, 2, 3, 200, 237, 238, 300, 475, BIAS, EXPMAX - 300, EXPMAX - 2, EXPMAX - 1, EXPMAX];
    let mut g: Vec<i64> = (-500..=500).collect();
    g.extend([-70000, -1023, -1024, -768, -769, -767, 767, 768, 769, 1024, 70000]);
    ctx.explore("product-addend exponent-gap sweep", g.len() * ptargets.len(), |l, i| {
        let t = ptargets[i % ptargets.len()];
        let ec = t + g[i / ptargets.len()];
        if ec < 0 || ec >= EXPMAX {
            return;
        }
        // biased exponent of a*b is about t
        let ea = (t + BIAS) / 2;
        let eb = t + BIAS - ea;
        if ea < 1 || eb < 1 || ea >= EXPMAX || eb >= EXPMAX {
            return;
        }
        for &f in &fs5 {
            for &h in &fs5 {
                for &k in &fs {
                    let (a, b, c) = (enc(false, ea, f), enc(false, eb, h), enc(false, ec, k));
                    l.check(c3(Op::Fma, a, b, c));
                    l.check(c3(Op::Fma, neg(a), b, c));
                    l.check(c3(Op::Fma, a, neg(b), neg(c)));
                }
            }
        }
    });
    // addend close to the negated product: massive cancellation
    let fm = fracs_m();
    ctx.explore("cancellation: addend near the negated product", fm.len() * fm.len(), |l, i| {
        let (f, h) = (fm[i / fm.len()], fm[i % fm.len()]);
        for (ea, eb) in [(BIAS, BIAS + 3), (BIAS / 2, BIAS / 2 + 2), (BIAS / 2, BIAS / 2 + 120), (BIAS / 2 + 100, BIAS / 2 + 380), (BIAS, EXPMAX - 1)] {
            let (a, b) = (enc(false, ea, f), enc(true, eb, h));
            let c = neg(m::mul(a, b));
            if !m::is_fin(c) {
                continue;
            }
            for k in -2i128..=2 {
                let c2_ = (c.0, c.1.wrapping_add_signed(k));
                l.check(c3(Op::Fma, a, b, c2_));
            }
        }
    });
    // tie-breaking by the addend: product has an exact tie, addend decides (or the reverse)
    ctx.explore("addend decides a tie", 236, |l, i| {
        for j in 0..236u32 {
            let (a, b) = (enc(false, BIAS, bit(i as u32)), enc(false, BIAS, bit(j)));
            for e in [0i64, 1, BIAS - 474, BIAS - 473, BIAS - 476, BIAS - 600, BIAS - 237, BIAS - 238, BIAS - 239] {
                for s in [false, true] {
                    l.check(c3(Op::Fma, a, b, enc(s, e, (0, (e == 0) as u128))));
                }
            }
        }
    });
    let sub = subnormals();
    let mut es: Vec<i64> = vec![0, 1, 2, 3, 120, 236, 237, 238, 300];
    es.extend([BIAS - 240, BIAS - 1, BIAS]);
    ctx.explore("subnormal factors, products and addends", sub.len(), |l, i| {
        for &e in &[1i64, 236, BIAS - 240, BIAS - 3, BIAS, BIAS + 1, BIAS + 3, BIAS + 236, BIAS + 240, EXPMAX - 1] {
            for &f in &fs5[..4] {
                for &ec in &es {
                    for &k in &fs5[..4] {
                        let c = enc(true, ec, k);
                        l.check(c3(Op::Fma, sub[i], enc(false, e, f), c));
                        l.check(c3(Op::Fma, enc(true, e, f), sub[i], c));
                    }
                }
                // subnormal addend
                for t in [-480i64, -474, -473, -300, -238, -237, -236, -200, -100, -3, -2, -1, 0, 1, 2, 3, 100, 236, 237, 240, 480] {
                    let ea = (t + BIAS) / 2;
                    let eb = t + BIAS - ea;
                    l.check(c3(Op::Fma, enc(false, ea, f), enc(false, eb, fs5[3]), sub[i]));
                    l.check(c3(Op::Fma, enc(false, ea, f), enc(true, eb, fs5[3]), sub[i]));
                }
            }
        }
    });
    let v = reachable(3, if ctx.thorough { 400 } else { 150 });
    let n = v.len();
    ctx.explore("operation sequences: all triples of reached states", n * n, |l, i| {
        for &c in &v {
            l.check(c3(Op::Fma, v[i / n], v[i % n], c));
        }
        l.check(c2(Op::SquareAdd, v[i / n], v[i % n]));
    });
}

pub fn sos(ctx: &Ctx) {
    special_pairs(ctx, &[Op::Sos]);
    let half = (BIAS + 1) / 2; // squares of 2^-half.. are at the underflow boundary
    let fa = fracs_m();
    let fb = fracs_s();
    let mut bases = vec![BIAS, BIAS + half - 2, BIAS + half - 1, BIAS + half, BIAS - half, BIAS - half - 118, BIAS - half - 119, BIAS - half - 120];
    for d in (-125..=125).step_by(if ctx.thorough { 1 } else { 5 }) {
        bases.push(BIAS - half + d);
    }
    let mut g: Vec<i64> = (0..=250).collect();
    g.extend([300, 384, 500, 512, 1000, 100000]);
    ctx.explore("exponent-gap sweep", g.len() * bases.len(), |l, i| {
        let ea = bases[i % bases.len()];
        let eb = ea - g[i / bases.len()];
        if eb < 0 {
            return;
        }
        let fa: &[Bits] = if i % bases.len() < 8 || ctx.thorough { &fa } else { &fb };
        for &f in fa {
            for &h in &fb {
                l.check(c2(Op::Sos, enc(false, ea, f), enc(true, eb, h)));
                l.check(c2(Op::Sos, enc(true, eb, h), enc(false, ea, f)));
            }
        }
    });
    // x*x is an exact tie (or one bit away from it) and y*y decides
    let mut odd = vec![];
    for u in irregular() {
        for bits in [118i64, 119, 120] {
            let x = norm_sig(enc(false, 1, u)).shr(237 - bits).shr(1).shl(1).add_u64(1);
            odd.push(x.clone());
            let top = Big::pow2(bits - 1).add(&Big::pow2(bits - 2));
            odd.push(top.add_u64(1 + 2 * (u.1 as u64 % 1000)));
        }
    }
    ctx.explore("ties of one square decided by the other", odd.len(), |l, i| {
        let mut xs = vec![];
        for e in [0i64, 1000, -1000, 131071 - 118, -131071, -131071 - 118, -131071 - 119, -131071 - 117 - 60, -131071 - 237] {
            xs.push((e, m::round(false, &odd[i], e, false)));
        }
        for (e, x) in xs {
            if !m::is_fin(x) {
                continue;
            }
            for g in (-3i64..=260).chain([300, 400, 1000, 20000]) {
                let ey = e + 118 - g;
                for f in [(0, 0), FMASK] {
                    let be = ey + BIAS;
                    if (1..EXPMAX).contains(&be) {
                        l.check(c2(Op::Sos, x, enc(g & 1 == 1, be, f)));
                        l.check(c2(Op::Sos, enc(g & 1 == 1, be, f), x));
                    }
                }
            }
            for y in [m::ZERO, (0, 1), (1, 0), FMASK, (1 << 108, 0)] {
                l.check(c2(Op::Sos, x, y));
                l.check(c2(Op::Sos, neg(y), neg(x)));
            }
        }
    });
    let fl = fracs_l();
    ctx.explore("dense significand pairs", fl.len(), |l, i| {
        for j in 0..fl.len() {
            l.check(c2(Op::Sos, enc(false, BIAS, fl[i]), enc(false, BIAS - (j as i64 % 121), fl[j])));
        }
    });
    reachable_pairs(ctx, &[Op::Sos]);
}

pub fn sqrt(ctx: &Ctx) {
    let sp = specials();
    ctx.explore("special and boundary values", sp.len(), |l, i| l.check(c1(Op::Sqrt, sp[i])));
    let fs = fracs_s();
    let step = 1;
    let fs6: Vec<Bits> = if ctx.thorough { fs.clone() } else { vec![fs[0], fs[2], fs[10]] };
    ctx.explore("every exponent", (EXPMAX as usize) / step, |l, i| {
        for &f in &fs6 {
            l.check(c1(Op::Sqrt, enc(false, i as i64, f)));
        }
    });
    let mut fl = fracs_l();
    let pos: Vec<u32> = if ctx.thorough { (0..236).collect() } else { positions() };
    fl.extend(fracs_2bit(&pos));
    let es = [1i64, 2, BIAS - 1, BIAS, BIAS + 1, BIAS + 2, EXPMAX - 2, EXPMAX - 1];
    ctx.explore("significand alphabet x even/odd exponents", fl.len(), |l, i| {
        for &e in &es {
            l.check(c1(Op::Sqrt, enc(false, e, fl[i])));
        }
    });
    let sub = subnormals();
    ctx.explore("subnormal operands", sub.len(), |l, i| l.check(c1(Op::Sqrt, sub[i])));
    // perfect squares, squares of midpoints, and their neighbours
    let mut roots = fl.clone();
    let mut r = Rng(ctx.seed);
    for _ in 0..2000 {
        roots.push(r.frac());
    }
    ctx.explore("squares of representables and of midpoints, and neighbours", roots.len(), |l, i| {
        for keep in [237i64, 200, 119, 118, 64] {
            for mid in [false, true] {
                let s = norm_sig(enc(false, 1, roots[i])).shr(237 - keep);
                let s = if mid { s.shl(1).add_u64(1) } else { s };
                let q = s.mul(&s);
                for sh in [0i64, 1] {
                    let q = q.shl(sh);
                    let x = if q.bits() > 237 { q.shr(q.bits() - 237) } else { q };
                    for k in 0..3u64 {
                        let y = if k < 2 { x.add_u64(k) } else { x.sub(&Big::from_u64(1)) };
                        if y.bits() <= 237 && !y.is_zero() {
                            l.check(c1(Op::Sqrt, m::round(false, &y, -100, false)));
                            l.check(c1(Op::Sqrt, m::round(false, &y, -101, false)));
                        }
                    }
                }
            }
        }
    });
    let v = reachable(3, 20000);
    ctx.explore("operation sequences: every reached state", v.len(), |l, i| l.check(c1(Op::Sqrt, v[i])));
}

pub fn scale(ctx: &Ctx) {
    let mut v = specials();
    v.extend(both(&cross(&exps_m(), &fracs_m())));
    v.extend(subnormals());
    let mut ns: Vec<u32> = (0..=520).collect();
    for c in [131072i64, BIAS, EXPMAX, BIAS + 237, EXPMAX + 237] {
        for d in -3..=3 {
            ns.push((c + d) as u32);
        }
    }
    for d in 0..=240 {
        ns.push((BIAS - 1 + d) as u32);
        ns.push((EXPMAX - 2 + d) as u32);
        ns.push((BIAS - 237 + d) as u32);
    }
    ns.extend([1 << 20, 1 << 24, i32::MAX as u32, 1 << 31, (1 << 31) + 1, u32::MAX - 236, u32::MAX - 1, u32::MAX]);
    ns.sort();
    ns.dedup();
    ctx.note(format!("{} values x {} scale amounts", v.len(), ns.len()));
    ctx.explore("values x scale amounts", v.len(), |l: &mut Local, i| {
        for &n in &ns {
            l.check(cn(Op::MulPow2, v[i], n));
            l.check(cn(Op::DivPow2, v[i], n));
        }
        l.check(c1(Op::Mul2, v[i]));
        l.check(c1(Op::Div2, v[i]));
    });
    // scaling exactly to and through the underflow boundary at every bit
    let fl = fracs_l();
    let es: Vec<i64> = vec![1, 2, 3, 100, 236, 237, 238, BIAS, EXPMAX - 1];
    ctx.explore("every underflow distance", fl.len(), |l, i| {
        for &e in &es {
            for d in -3i64..=240 {
                let n = e + d;
                if n >= 0 {
                    l.check(cn(Op::DivPow2, enc(i & 1 == 1, e, fl[i]), n as u32));
                }
            }
        }
    });
}
