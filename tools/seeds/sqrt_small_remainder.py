SEED = dict(property="A07",
 needs="a number that exceeds a square with a few significant bits by less than 2^-108 relative to the square",
 breaks="the trailing digits of the root are dropped",
 edits=[("src/math/sqrt.rs", "            if r.is_zero() {\n                break;", "            if r.hi.is_zero() {\n                break;")],
 demo='''
    let x = b(0x3ffff << 108, 1 << 86);
    same("sqrt(1 + 2^-150)", x.sqrt(), 0x3ffff << 108, 1 << 85);
''')
