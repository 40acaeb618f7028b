//! ⌊5ⁱ / 2ʰ⁻²⌋, h = ⌈log₂(5ⁱ)⌉ - 501, as the callers expect it
#[path = "../../common/p5.rs"]
mod p5;
use std::sync::OnceLock;

type Entry = (u128, u128, u128, u128);
const N: usize = 78987;
pub fn entry(i: usize) -> Entry {
    let h = p5::floor_log2_pow5(i as u64) + 1 - 503;
    let w = p5::words(&p5::pow5_shifted(i as u64, -h));
    (w[3], w[2], w[1], w[0])
}
pub fn lookup_pow5_div_pow2(idx: usize) -> Entry {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| (0..N).map(entry).collect())[idx]
}
