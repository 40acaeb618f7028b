SEED = dict(property="C01",
 needs="a value whose fractional part lies in the lower 128 bits of the significand only",
 breaks="ceil of positive and floor of negative values do not move away from zero when the fraction is in the low word",
 edits=[("src/lib.rs", "let c = adj(sign) as u32 * (abs_int_bits != abs_bits) as u32;", "let c = adj(sign) as u32 * (abs_int_bits.hi != abs_bits.hi) as u32;")],
 demo='''
    let x = f256::ONE + f256::EPSILON;
    same("ceil(1 + eps)", x.ceil(), 0x40000 << 108, 0);
    same("floor(-1 - eps)", (-x).floor(), 0xc0000 << 108, 0);
''')
