SEED = dict(property="A05",
 needs="an addend more than 2^200 times the product, subtracted so that the exact result lies above a rounding midpoint by less than 2^-256 of the last place",
 breaks="bits far below the rounding position no longer count as sticky bits, so the result is rounded as an exact tie",
 edits=[("src/fused_ops/fma.rs", "(carry.0 != 0 || signif_z.mi.lo.0 != 0 || !signif_z.lo.is_zero())", "(carry.0 != 0 || signif_z.mi.lo.0 != 0)")],
 demo='''
    // x * y = -(1 - 2^-400), a = 2^237 + 2: a + x * y = 2^237 + 1 + 2^-400 rounds to a
    let p200 = b((0x3ffff - 200) << 108, 0);
    let x = -(f256::ONE + p200);
    let y = f256::ONE - p200;
    let a = b((0x3ffff + 237) << 108, 1);
    same("fma", x.mul_add(y, a), (0x3ffff + 237) << 108, 1);
''')
