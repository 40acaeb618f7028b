//! (⌊2^shift / 10^(19·chunk)⌋ + 1) mod 10^19·2^304
#[path = "../../common/p5.rs"]
mod p5;
use std::sync::OnceLock;

type Entry = (u128, u128, u128);
const OFFSET: i64 = (512 - p5::P) / 32;
const N_SEGMENTS: i64 = (262143 + 1 - p5::P) / 32 + 1 - OFFSET;
struct Table {
    params: Vec<(u32, u32)>,
    entries: Vec<Entry>,
}
fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Table { params: vec![], entries: vec![] };
        let md = p5::modulus();
        for seg in 0..N_SEGMENTS {
            let upper = (seg + OFFSET + 1) * 32 - 1;
            let shift = upper - 31 + p5::BITS;
            let first = ((2f64.log10() * (upper + p5::P - 1) as f64).ceil() as i64 + 1) / 19;
            t.params.push((first as u32 + 1, shift as u32));
            for i in 0..6 {
                let c = first - i;
                assert!(c >= 0);
                let q = p5::pow2_div_pow5(shift - 19 * c, 19 * c as u64).add_u64(1);
                let w = p5::words(&q.div_rem(&md).1);
                t.entries.push((w[2], w[1], w[0]));
            }
        }
        t
    })
}
pub fn get_pow2_div_pow10_params(exp2: i32) -> (usize, (u32, u32)) {
    let i = (exp2 as i64 / 32 - OFFSET) as usize;
    (i, table().params[i])
}
pub fn lookup_pow2_div_pow10(segment_idx: usize, chunk_idx: usize) -> Entry {
    assert!(chunk_idx < 6);
    table().entries[segment_idx * 6 + chunk_idx]
}
