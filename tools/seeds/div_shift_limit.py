SEED = dict(property="N01",
 needs="a quotient that underflows by exactly 256 places, so that the significand is shifted by its full width",
 breaks="the division panics (checked build) or gives garbage instead of zero",
 flags="-C debug-assertions -C overflow-checks",
 edits=[("src/binops/div.rs", "if shift > SIGNIFICAND_BITS + 1 {", "if shift > U256::BITS {")],
 demo='''
    let tiny = f256::from_sign_exp_signif(0, -262142 - 236, (1 << 108, 0));
    let y = f256::from_sign_exp_signif(0, 20, (1 << 108, 0));
    let _ = y;
    for n in 200..300 {
        let q = tiny / f256::from_sign_exp_signif(0, n, (0, 1));
        if n > 237 {
            same(&format!("MIN_POSITIVE / 2^{n}"), q, 0, 0);
        }
    }
''')
