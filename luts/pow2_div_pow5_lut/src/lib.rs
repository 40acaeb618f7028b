//! (⌊2ʰ / 5ᵍ⌋ + 1) · 4, h = ⌊log₂(5ᵍ)⌋ + 501, as the callers expect it
#[path = "../../common/p5.rs"]
mod p5;
use std::sync::OnceLock;

type Entry = (u128, u128, u128, u128);
const N: usize = 78841;
pub fn entry(g: usize) -> Entry {
    let h = p5::floor_log2_pow5(g as u64) + 501;
    let w = p5::words(&p5::pow2_div_pow5(h, g as u64).add_u64(1).shl(2));
    (w[3], w[2], w[1], w[0])
}
pub fn lookup_pow2_div_pow5(idx: usize) -> Entry {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| (0..N).map(entry).collect())[idx]
}
