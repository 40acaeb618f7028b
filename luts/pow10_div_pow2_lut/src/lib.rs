//! ⌊10^(19·chunk) · 2^shift⌋ mod 10^19·2^304
#[path = "../../common/p5.rs"]
mod p5;
use std::sync::OnceLock;

pub const CHUNK_SIZE: u32 = p5::CHUNK_SIZE;
pub const CHUNK_BASE: u64 = 10_000_000_000_000_000_000;
pub const CHUNK_CUTOFF: u32 = p5::CHUNK_CUTOFF;
pub const COMPRESSION_RATE: u32 = p5::COMPRESSION_RATE;
pub const SHIFT: i32 = p5::BITS as i32;

type Entry = (u128, u128, u128);
const OFFSET: i64 = (p5::P - 1) / 32;
const N_SEGMENTS: i64 = (262142 + 2 * p5::P - 1) / 32 + 1 - OFFSET;
struct Table {
    params: Vec<(u32, i32)>,
    entries: Vec<Entry>,
}
fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Table { params: vec![], entries: vec![] };
        let md = p5::modulus();
        for seg in 0..N_SEGMENTS {
            let upper = -(seg + OFFSET) * 32;
            let shift = p5::BITS + upper - 31;
            let c = (2f64.log10() * (upper + p5::P) as f64).ceil() as i64;
            let zero = (-c).div_euclid(19).max(0);
            t.params.push((zero as u32, shift as i32));
            for i in 1..=6 {
                let k = 19 * (zero + i);
                let q = p5::pow5_shifted(k as u64, k + shift);
                let w = p5::words(&q.div_rem(&md).1);
                t.entries.push((w[2], w[1], w[0]));
            }
        }
        t
    })
}
pub fn get_pow10_div_pow2_params(exp2: i32) -> (usize, (u32, i32)) {
    let i = (-(exp2 as i64) / 32 - OFFSET) as usize;
    (i, table().params[i])
}
pub fn lookup_pow10_div_pow2(segment_idx: usize, chunk_idx: usize) -> Entry {
    assert!(chunk_idx < 6);
    table().entries[segment_idx * 6 + chunk_idx]
}
