SEED = dict(property="H05",
 needs="atan2 of a subnormal number below 2^-262250 and a finite positive number",
 breaks="the result is zero instead of the quotient",
 edits=[("src/math/circular_fns/atan.rs", "let abs_bits_sticky_y = abs_bits_sticky(&abs_bits_y);", "let abs_bits_sticky_y = abs_bits_y.hi.0;")],
 demo='''
    let y = b(0, 0x40000000000000000000);
    same("atan2(2^-262300, 1)", y.atan2(&f256::ONE), 0, 0x40000000000000000000);
''')
