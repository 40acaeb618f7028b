SEED = dict(property="H01",
 needs="a logarithm whose exact value is within a twentieth of a unit in the last place of a rounding boundary",
 breaks="log10 of such numbers is off by one unit in the last place (two digits of the constant log10(e) are swapped behind the precision of the result)",
 edits=[("src/math/log.rs", "0x7529e3aa1277d0a0179f94911aac9632", "0x7259e3aa1277d0a0179f94911aac9632")],
 demo='''
    same("log10(17)", f256::from(17).log10(), 0x3ffff3afeb354b7d9731ad6954ec1fec, 0x5c6191bafdd6c283a8d697826d5daaf6);
    same("log10(99)", f256::from(99).log10(), 0x3fffffee1f2b78b06d12265ce6d051d9, 0x18196da3651712d35b9fe5cc326ac702);
''')
