SEED = dict(property="D01",
 needs="exactly the smallest normal f64 or f32, positive or negative",
 breaks="f64::MIN_POSITIVE is taken for a subnormal and converted to zero",
 edits=[("src/conv/from_float.rs", "if abs_bits >= F::FRACTION_BIAS &&", "if abs_bits > F::FRACTION_BIAS &&")],
 demo='''
    same("f64::MIN_POSITIVE", f256::from(f64::MIN_POSITIVE), (262143 - 1022) << 108, 0);
    same("-f32::MIN_POSITIVE", f256::from(-f32::MIN_POSITIVE), 1 << 127 | (262143 - 126) << 108, 0);
    same("f64 above it", f256::from(f64::from_bits(0x0010000000000001)), (262143 - 1022) << 108 | 1 << 56, 0);
''')
