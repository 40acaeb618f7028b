//! A09 (operator forms), D01 (conversions from primitives), D02 (representations)
use super::{c1, c2, cn};
use crate::alpha::*;
use crate::case::{Op, SES_OFF};
use crate::model::{self as m, enc, Bits};
use crate::run::Ctx;

pub fn forms(ctx: &Ctx) {
    let mut v = specials();
    v.extend(both(&cross(
        &[0, 1, 2, BIAS - 237, BIAS - 1, BIAS, BIAS + 1, BIAS + 236, EXPMAX - 1],
        &fracs_s(),
    )));
    v.sort();
    v.dedup();
    let ops = [Op::AddForms, Op::SubForms, Op::MulForms, Op::DivForms, Op::RemForms];
    ctx.explore("all ordered pairs, by value / reference / assignment", v.len(), |l, i| {
        for &y in &v {
            for op in ops {
                // remainders over a huge exponent distance are covered by A04
                if op == Op::RemForms && m::bexp(v[i]) - m::bexp(y) > 2000 {
                    continue;
                }
                l.check(c2(op, v[i], y));
            }
        }
    });
    let mut w = specials();
    w.extend(both(&cross(&exps_m(), &fracs_m())));
    ctx.explore("zero/one traits", w.len(), |l, i| l.check(c1(Op::NumTraits, w[i])));
}

fn u(x: u128) -> Bits {
    (0, x)
}

pub fn from_prim(ctx: &Ctx) {
    ctx.explore("8 and 16 bit integers, exhaustive", 1 << 16, |l, i| {
        if i < 256 {
            l.check(c1(Op::FromU8, u(i as u128)));
            l.check(c1(Op::FromI8, u(i as u128)));
        }
        l.check(c1(Op::FromU16, u(i as u128)));
        l.check(c1(Op::FromI16, u(i as u128)));
    });
    // wider integers: all runs of ones at all positions, two-bit values and
    // their complements, negatives
    let mut ints: Vec<u128> = vec![];
    for a in 0..=128u32 {
        for b in 0..=a {
            let lo = if b == 128 { 0 } else { 1u128 << b };
            let hi = if a == 128 { 0 } else { 1u128 << a };
            ints.push(hi.wrapping_sub(lo));
            ints.push(hi.wrapping_add(lo));
            ints.push(hi.wrapping_sub(lo).wrapping_neg());
            ints.push(!hi.wrapping_add(lo));
        }
    }
    for f in irregular() {
        for s in 0..128 {
            ints.push(f.1 >> s);
            ints.push((f.1 >> s).wrapping_neg());
        }
    }
    ints.sort();
    ints.dedup();
    let ops = [Op::FromU32, Op::FromI32, Op::FromU64, Op::FromI64, Op::FromU128, Op::FromI128];
    ctx.explore("32..128 bit integers: runs of ones, two-bit and irregular patterns", ints.len(), |l, i| {
        for op in ops {
            l.check(c1(op, u(ints[i])));
        }
    });
    ctx.explore("32 bit integers, low and high 2^20 ranges", 1 << 20, |l, i| {
        for b in [0u32, 1 << 31, u32::MAX - (1 << 20) + 1, (1 << 24) - (1 << 19)] {
            l.check(c1(Op::FromU32, u(b.wrapping_add(i as u32) as u128)));
            l.check(c1(Op::FromI32, u(b.wrapping_add(i as u32) as u128)));
        }
    });
    // f32: every exponent and sign x every fraction of a stride-free sub-block
    if ctx.thorough {
        ctx.explore("f32, exhaustive (2^32 values)", 1 << 16, |l, i| {
            for j in 0..1u128 << 16 {
                l.check(c1(Op::FromF32, u((i as u128) << 16 | j)));
            }
        });
    } else {
        ctx.explore("f32: every sign and exponent x fractions with at most 11 leading or trailing bits", 512, |l, i| {
            for j in 0..1u128 << 11 {
                l.check(c1(Op::FromF32, u((i as u128) << 23 | j)));
                l.check(c1(Op::FromF32, u((i as u128) << 23 | j << 12)));
                l.check(c1(Op::FromF32, u((i as u128) << 23 | (0x7fffff ^ j))));
            }
        });
    }
    let mut f64s: Vec<u128> = (0..52).flat_map(|a| (0..=a).flat_map(move |b| [1u128 << a | 1 << b, (1 << a) - (1 << b)])).collect();
    f64s.extend([0, (1 << 52) - 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x921fb54442d18]);
    f64s.sort();
    f64s.dedup();
    let fl: Vec<u128> = if ctx.thorough { f64s.clone() } else { f64s.iter().copied().step_by(5).collect() };
    ctx.explore("f64: every sign and exponent x two-bit and run fractions", 4096, |l, i| {
        for &f in &fl {
            l.check(c1(Op::FromF64, u((i as u128) << 52 | f)));
        }
    });
    ctx.explore("f64: boundary exponents x all two-bit and run fractions", f64s.len(), |l, i| {
        for e in [0u128, 1, 2, 1022, 1023, 1024, 2045, 2046, 2047] {
            for s in [0u128, 1] {
                l.check(c1(Op::FromF64, u(s << 63 | e << 52 | f64s[i])));
                l.check(c1(Op::FromF64, u(s << 63 | e << 52 | (0xfffffffffffff ^ f64s[i]))));
            }
        }
    });
}

pub fn repr(ctx: &Ctx) {
    let mut v = specials();
    v.extend(both(&cross(&exps_m(), &fracs_m())));
    let two: Vec<u32> = (0..256).collect();
    for b in fracs_2bit(&two) {
        v.push(b);
        v.push((!b.0, !b.1));
    }
    for p in 0..256 {
        v.push(bit(p));
        v.push((!bit(p).0, !bit(p).1));
    }
    // 32 distinct bytes: any permutation shows
    v.push((0x000102030405060708090a0b0c0d0e0f, 0x101112131415161718191a1b1c1d1e1f));
    v.push((0x800102030405060708090a0b0c0d0e0f, 0xf0f1f2f3f4f5f6f7f8f9fafbfcfdfeff));
    v.sort();
    v.dedup();
    ctx.explore("bits and bytes of specials, boundary values and all two-bit encodings", v.len(), |l, i| {
        for op in [Op::BitsRt, Op::BytesBe, Op::BytesLe, Op::BytesNe] {
            l.check(c1(op, v[i]));
        }
        if m::is_fin(v[i]) {
            l.check(c1(Op::Ses, v[i]));
        }
    });
    let fs = fracs_s();
    ctx.explore("sign/exponent/significand: every exponent", EXPMAX as usize, |l, i| {
        for &f in &fs[..6] {
            for s in [false, true] {
                l.check(c1(Op::Ses, enc(s, i as i64, f)));
            }
        }
    });
    // every (exponent, significand) with an exactly representable value
    let mut cs: Vec<Bits> = vec![];
    for a in 0..=237u32 {
        for b in [0, 1, 2, 3, 64, 127, 128, 200, 236] {
            if b <= a && a <= 237 {
                let hi = if a == 0 { (0, 1) } else { mask(a) };
                cs.push((hi.0 & !mask(b).0, hi.1 & !mask(b).1));
                if a < 237 {
                    cs.push(or(bit(a), bit(b)));
                }
            }
        }
    }
    cs.retain(|c| *c != (0, 0));
    cs.sort();
    cs.dedup();
    let mut ts: Vec<i64> = vec![];
    for d in 0..300 {
        ts.push(-262378 + d);
        ts.push(262143 - d);
    }
    ts.extend(-300..300);
    ctx.explore("construction from sign, exponent and significand", cs.len(), |l, i| {
        let c = crate::big::Big::from_hilo(cs[i].0, cs[i].1);
        for &t in &ts {
            // representable without rounding or overflow
            if t + c.bits() - 1 > 262143 || t < -262378 || t > 262143 - 236 {
                continue;
            }
            for s in 0..2u32 {
                l.check(cn(Op::FromSes, cs[i], ((t as i32 + SES_OFF) as u32) << 1 | s));
            }
        }
    });
}
