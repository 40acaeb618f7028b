SEED = dict(property="A03",
 needs="a quotient shifted at least 128 places into the subnormal range whose discarded bits are just above a tie",
 breaks="the quotient is rounded as if it were a tie",
 edits=[("src/binops/div.rs", "| (rem > (&U256::ONE << (shift - 1))) as u32", "| (rem > (&U256::from(3_u128) << (shift - 2))) as u32")],
 demo='''
    // x = 2^e * (2^236 + 2^127 + 1), divided by a power of two, so that 128 bits are discarded
    let x = b(1000 << 108, (1 << 127) + 1);
    let y = b((0x3ffff + 1127) << 108, 0);
    same("x / y", x / y, 0, (1 << 108) + 1);
''')
