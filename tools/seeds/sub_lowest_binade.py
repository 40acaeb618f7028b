SEED = dict(property="S01",
 needs="a difference of two numbers with the same exponent that lies in the lowest normal binade",
 breaks="the significand is shifted one bit too few, the difference is wrong",
 edits=[("src/binops/add.rs", "        // exp == 0 => result is subnormal => no hidden bit\n        abs_bits_z <<= (adj - (exp_bits_z == 0) as u32);", "        // exp == 0 => result is subnormal => no hidden bit\n        abs_bits_z <<= (adj - (exp_bits_z <= 1) as u32);")],
 demo='''
    // 1.5 * 2^(k+1) - 2^(k+1) = 2^k, k the smallest normal exponent
    let m = b(1 << 108, 0);
    same("3 * min normal - 2 * min normal", b(2 << 108 | 1 << 107, 0) - b(2 << 108, 0), 1 << 108, 0);
    same("the same the other way round", b(2 << 108, 0) - b(2 << 108 | 1 << 107, 0), 1 << 127 | 1 << 108, 0);
    same("min normal + min normal", m + m, 2 << 108, 0);
''')
