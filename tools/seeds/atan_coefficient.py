SEED = dict(property="H04",
 needs="an argument whose distance to the multiple of 1/256 below it is close to 1/256",
 breaks="the arctangent is off by a unit in the last place (a digit of the coefficient 1/9 is wrong)",
 edits=[("src/math/circular_fns/approx_atan.rs", "        0x1c71c71c71c71c71c71c71c71c71c71c,\n        0x71c71c71c71c71c71c71c71c71c71c71,".replace("\\\n", "\n"), "        0x1c71c71c71c71c17c71c71c71c71c71c,\n        0x71c71c71c71c71c71c71c71c71c71c71,".replace("\\\n", "\n"))],
 demo='''
    let x = b(0x3fff6ffc000000000000000000000000, 0);
    same("atan(x)", x.atan(), 0x3fff6ffbf5595b37bd82a9f906af5f36, 0x0a3d1959be8304b9159c708389274181);
''')
