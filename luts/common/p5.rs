//! Entries of the lookup tables, calculated on demand by the formulas of
//! analysis/gen_ryu_helper_tables.py and gen_ryu_print_helper_tables.py (the
//! generated tables themselves are not part of the repository).
#![allow(dead_code)]
#[path = "../../mc/src/big.rs"]
mod big;
use big::Big;
use std::sync::OnceLock;

const W: i64 = 1152;
const N: usize = 79500;

/// powers of five truncated to W bits, and their reciprocals; the relative
/// error is below 2^-(W-20)
struct Pows {
    up: Vec<(Big, i64)>,
    down: Vec<(Big, i64)>,
}
static POWS: OnceLock<Pows> = OnceLock::new();
fn pows() -> &'static Pows {
    POWS.get_or_init(|| {
        let mut up = vec![(Big::pow2(W - 1), 1 - W)];
        let mut down = up.clone();
        for _ in 0..N {
            let (b, e) = up.last().unwrap();
            let mut x = b.clone();
            x.mul_u64_assign(5);
            let s = x.bits() - W;
            up.push((x.shr(s), e + s));
            let (b, e) = down.last().unwrap();
            let (q, _) = b.shl(3).div_rem_u64(5);
            let s = q.bits() - W;
            down.push((q.shift(-s), e - 3 + s));
        }
        Pows { up, down }
    })
}
/// ⌊5^k · 2^s⌋ (at most W - 100 bits)
pub fn pow5_shifted(k: u64, s: i64) -> Big {
    let (b, e) = &pows().up[k as usize];
    let exact = k < 400;
    floor(b, e + s, exact).unwrap_or_else(|| Big::pow(5, k).shift(s))
}
/// ⌊2^s / 5^k⌋ (at most W - 100 bits)
pub fn pow2_div_pow5(s: i64, k: u64) -> Big {
    if k == 0 {
        return Big::from_u64(1).shift(s);
    }
    let (b, e) = &pows().down[k as usize];
    floor(b, e + s, false).unwrap_or_else(|| Big::pow2(s).div_rem(&Big::pow(5, k)).0)
}
fn floor(b: &Big, e: i64, exact: bool) -> Option<Big> {
    assert!(e < 0 && b.bits() + e < W - 60, "table entry too large");
    let lo = b.shr(-e);
    if exact {
        return Some(lo);
    }
    let hi = b.add(&b.shr(W - 20)).add_u64(1).shr(-e);
    if lo == hi {
        Some(lo)
    } else {
        None
    }
}
pub fn words(x: &Big) -> [u128; 4] {
    let g = |i: usize| *x.0.get(i).unwrap_or(&0) as u128;
    let w = |i: usize| g(2 * i) | g(2 * i + 1) << 64;
    assert!(x.0.len() <= 8);
    [w(0), w(1), w(2), w(3)]
}
pub fn floor_log2_pow5(k: u64) -> i64 {
    let (b, e) = &pows().up[k as usize];
    b.bits() + e - 1
}

pub const CHUNK_SIZE: u32 = 19;
pub const CHUNK_CUTOFF: u32 = 6;
pub const COMPRESSION_RATE: u32 = 32;
pub const BITS: i64 = 304;
pub const P: i64 = 237;
pub fn modulus() -> Big {
    Big::from_u64(10_000_000_000_000_000_000).shl(BITS)
}
