//! B01..B04, C01, C02
use super::{c1, c2, c3};
use crate::alpha::*;
use crate::case::Op;
use crate::model::{self as m, enc, Bits};
use crate::run::Ctx;

fn order_alphabet(thorough: bool) -> Vec<Bits> {
    let mut v = specials();
    v.extend(both(&cross(&exps_m(), &fracs_s())));
    let fl = fracs_l();
    let es: &[i64] = if thorough { &[0, 1, BIAS, EXPMAX - 1, EXPMAX] } else { &[0, BIAS] };
    for &e in es {
        for (i, &f) in fl.iter().enumerate() {
            v.push(enc(i % 3 == 1, e, f));
        }
    }
    // NaN payloads
    for p in positions() {
        v.push(enc(false, EXPMAX, bit(p)));
        v.push(enc(true, EXPMAX, bit(p)));
    }
    v.sort();
    v.dedup();
    v
}

pub fn compare(ctx: &Ctx) {
    let v = order_alphabet(ctx.thorough);
    let ops = [Op::Eq, Op::Ne, Op::Cmp, Op::Lt, Op::Le, Op::Gt, Op::Ge];
    ctx.note(format!("alphabet of {} values, all ordered pairs", v.len()));
    ctx.explore("all ordered pairs", v.len(), |l, i| {
        for &y in &v {
            for op in ops {
                l.check(c2(op, v[i], y));
            }
        }
    });
    near(ctx, &ops);
}
fn near(ctx: &Ctx, ops: &[Op]) {
    // pairs that differ in exactly one bit of the encoding, and neighbours
    let mut v = specials();
    v.extend(both(&cross(&exps_s(), &fracs_m())));
    ctx.explore("one-bit differences of the encoding", v.len(), |l, i| {
        for p in 0..256 {
            let y = xor(v[i], bit(p));
            for &op in ops {
                l.check(c2(op, v[i], y));
                l.check(c2(op, y, v[i]));
            }
        }
    });
}

pub fn total(ctx: &Ctx) {
    let v = order_alphabet(ctx.thorough);
    ctx.explore("all ordered pairs", v.len(), |l, i| {
        for &y in &v {
            l.check(c2(Op::TotalCmp, v[i], y));
        }
    });
    near(ctx, &[Op::TotalCmp]);
}

pub fn classify(ctx: &Ctx) {
    let ops = [
        Op::IsNan, Op::IsInf, Op::IsFin, Op::IsSub, Op::IsNorm, Op::Classify, Op::EqZero,
        Op::IsSpecial, Op::SignPos, Op::SignNeg, Op::Abs, Op::Neg, Op::NegRef,
    ];
    let fs = fracs_s();
    // every exponent field value
    ctx.explore("every exponent field", 1 << 19, |l, i| {
        for &f in &fs[..5] {
            for s in [false, true] {
                for op in ops {
                    l.check(c1(op, enc(s, i as i64, f)));
                }
            }
        }
    });
    let mut fl = fracs_l();
    fl.extend(fracs_2bit(&(0..236).collect::<Vec<_>>()));
    ctx.explore("boundary exponents x significand alphabet", fl.len(), |l, i| {
        for e in [0, 1, 2, BIAS, EXPMAX - 2, EXPMAX - 1, EXPMAX] {
            for s in [false, true] {
                for op in ops {
                    l.check(c1(op, enc(s, e, fl[i])));
                }
            }
        }
    });
}

pub fn select(ctx: &Ctx) {
    let v = order_alphabet(false);
    let ops = [Op::Min, Op::Max];
    ctx.explore("min/max: all ordered pairs", v.len(), |l, i| {
        for &y in &v {
            for op in ops {
                l.check(c2(op, v[i], y));
            }
        }
    });
    near(ctx, &ops);
    let mut w = specials();
    w.extend(both(&cross(&[0, 1, BIAS - 1, BIAS, BIAS + 1, EXPMAX - 1], &fracs_s()[..4])));
    w.sort();
    w.dedup();
    let n = w.len();
    ctx.explore("clamp: all ordered triples", n * n, |l, i| {
        let (lo, hi) = (w[i / n], w[i % n]);
        if !matches!(m::partial_cmp(lo, hi), Some(core::cmp::Ordering::Less | core::cmp::Ordering::Equal)) && i % 7 != 0 {
            return; // the documented panic: a seventh of these pairs is enough
        }
        for &x in &w {
            l.check(c3(Op::Clamp, x, lo, hi));
        }
    });
}

pub fn integral(ctx: &Ctx) {
    let ops = [Op::Trunc, Op::Fract, Op::Split, Op::Ceil, Op::Floor, Op::Round, Op::RoundEven];
    let mut sp = specials();
    sp.extend(both(&cross(&exps_m(), &fracs_m())));
    ctx.explore("special and boundary values", sp.len(), |l, i| {
        for op in ops {
            l.check(c1(op, sp[i]));
        }
    });
    // every position of the radix point x every bit pattern around it
    let fl = fracs_l();
    ctx.explore("every radix point position x significand alphabet", 245, |l, i| {
        let e = BIAS - 4 + i as i64;
        for &f in &fl {
            for s in [false, true] {
                for op in ops {
                    l.check(c1(op, enc(s, e, f)));
                }
            }
        }
        // integer part u, then fraction: 0, tiny, just below tie, tie, just above, all ones
        let k = 236 - (i as i64 - 4); // fraction bits
        if !(1..=236).contains(&k) {
            return;
        }
        let k = k as u32;
        let mut ints = irregular();
        ints.extend([(0, 0), FMASK]);
        for p in 0..4 {
            ints.push(bit((k + p).min(235)));
            ints.push(fnot(bit((k + p).min(235))));
        }
        let keep = fnot(mask(k));
        for u in ints {
            let ip = (u.0 & keep.0, u.1 & keep.1);
            for ip in [ip, or(ip, if k < 236 { bit(k) } else { (0, 0) })] {
                for fr in [(0, 0), (0, 1), mask(k - 1), bit(k - 1), or(bit(k - 1), (0, 1)), mask(k), bit(k / 2), or(bit(k - 1), bit(k / 2))] {
                    for s in [false, true] {
                        for op in ops {
                            l.check(c1(op, enc(s, e, or(ip, fr))));
                        }
                    }
                }
            }
        }
    });
}

pub fn ulp(ctx: &Ctx) {
    let fs = fracs_s();
    ctx.explore("every exponent field", 1 << 19, |l, i| {
        for &f in &fs[..4] {
            for s in [false, true] {
                l.check(c1(Op::Ulp, enc(s, i as i64, f)));
            }
        }
    });
    let fl = fracs_l();
    let es = exps_m();
    ctx.explore("boundary exponents x significand alphabet", fl.len(), |l, i| {
        for &e in &es {
            l.check(c1(Op::Ulp, enc(false, e, fl[i])));
        }
    });
}
