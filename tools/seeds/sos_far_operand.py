SEED = dict(property="A06",
 needs="a first square that is exactly a rounding tie and a second operand at least 247 binades smaller",
 breaks="a far smaller operand is ignored, so the tie is not broken upwards",
 edits=[("src/fused_ops/sos.rs", "signif_y2 = U512::ONE;", "signif_y2 = U512::ZERO;")],
 demo='''
    // (1 + 2^-118 + 2^-119)^2 has the last bits 2^-236 * 2.25; use (1 + 2^-119)... build a tie:
    // (1 + 3 * 2^-119)^2 = 1 + 3 * 2^-118 + 9 * 2^-238: no tie; (1 + 2^-118.5) does not exist, so
    // take x = 2^118 + 1 over 2^118 and look at x^2 = 1 + 2^-117 + 2^-236, exact: then x = 1 + 2^-119
    // has x^2 = 1 + 2^-118 + 2^-238; a tie needs an odd multiple of 2^-237.
    // x = sqrt(2)-like: significand with x^2 >= 2: ulp is 2^-235, tie at odd multiples of 2^-236.
    let x = b(0x3ffff << 108 | 1 << 107, 1 << 118); // 1.5 + 2^-118, x^2 = 2.25 + 3 * 2^-118 + 2^-236
    let t = x.sum_of_squares(f256::ZERO).to_bits();
    let u = x.sum_of_squares(b((0x3ffff - 300) << 108, 0)).to_bits();
    if u.1 != t.1 + 1 || t.0 != u.0 {
        eprintln!("the far operand has to break the tie: {t:x?} {u:x?}");
        std::process::exit(1);
    }
''')
