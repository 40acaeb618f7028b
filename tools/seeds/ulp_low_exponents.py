SEED = dict(property="C02",
 needs="a normal value below 2^236 times the smallest normal one, so that its ulp is subnormal",
 breaks="the ulp of these values is twice the right one",
 edits=[("src/lib.rs", ".saturating_sub(exp_bits - norm_bit(&abs_bits_self));", ".saturating_sub(exp_bits - (exp_bits > 1) as u32 * 0 - (exp_bits == 1) as u32);")],
 demo='''
    same("ulp(2 * min normal)", b(2 << 108, 0).ulp(), 0, 2);
    same("ulp(min normal)", b(1 << 108, 0).ulp(), 0, 1);
''')
