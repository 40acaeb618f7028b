SEED = dict(property="A02",
 needs="a product strictly between half the smallest subnormal and the smallest subnormal",
 breaks="the product is flushed to zero instead of rounded up to the smallest subnormal",
 edits=[("src/binops/mul.rs", "if shift > SIGNIFICAND_BITS + 1 {", "if shift >= SIGNIFICAND_BITS {")],
 demo='''
    let x = f256::MIN_GT_ZERO;
    let y = b(0x3fffe << 108 | 1 << 107, 0); // 0.75
    same("min * 0.75", x * y, 0, 1);
    same("min * 0.5", x * b(0x3fffe << 108, 0), 0, 0);
''')
