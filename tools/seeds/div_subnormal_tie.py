SEED = dict(property="A03",
 needs="a quotient that is subnormal, with 3 to 127 bits below the last place, and lies exactly half way between two subnormals with the lower one even",
 breaks="such a quotient is rounded up instead of to even",
 edits=[("src/binops/div.rs", "| (rem > (1_u128 << (shift - 1))) as u32", "| (rem >= (1_u128 << (shift - 1))) as u32")],
 demo='''
    // (2^236 + 2^9 + 2^3) * 2^(q) / 2^4 ... : lowest bits 1000, last kept bit 0
    let x = b(1 << 108, 1 << 9 | 1 << 3);
    let y = b((0x3ffff + 4) << 108, 0);
    same("x / 16", x / y, 1 << 104, 1 << 5);
''')
