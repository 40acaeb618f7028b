SEED = dict(property="H04",
 needs="a number in [2^236, 2^237)",
 breaks="atan returns pi/2 although pi/2 - 1/x rounds to the number below it",
 edits=[("src/math/circular_fns/atan.rs", "((EXP_BIAS + SIGNIFICAND_BITS) as u128) << HI_FRACTION_BITS,", "((EXP_BIAS + SIGNIFICAND_BITS - 1) as u128) << HI_FRACTION_BITS,")],
 demo='''
    let x = f256::ONE.mul_pow2(236);
    same("atan(2^236)", x.atan(), 0x3ffff921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c761);
''')
