SEED = dict(property="A01",
 needs="an addition with exponent distance 4 whose smaller operand ends in the bits 1001, so that the lowest bit decides a rounding tie",
 breaks="the sticky bit is dropped at exponent distance 4: the sum is rounded as if it were an exact tie",
 edits=[("src/binops/add.rs", "let mut sticky_bit = if adj <= 3 {", "let mut sticky_bit = if adj <= 4 {")],
 demo='''
    // 1 + 2^-4 * (1 + 9 * 2^-236)
    let x = b(0x3ffff << 108, 0);
    let y = b(0x3fffb << 108, 9);
    same("1 + y", x + y, 0x3ffff << 108 | 1 << 104, 1);
    let z = b(0x3ffff << 108, 0) - b(0x3fffb << 108, 3);
    let _ = z;
''')
