SEED = dict(property="H03",
 needs="sin_cos of a negative number whose absolute value is next to an odd multiple 3 pi/2 + 2 k pi",
 breaks="the cosine has the wrong sign",
 edits=[("src/math/circular_fns/sin_cos.rs", "(3, 1) => (Self::from(&cos), Self::from(&sin)),", "(3, 1) => (Self::from(&cos), -Self::from(&sin)),")],
 demo='''
    let (s, c) = f256::from(-5).sin_cos();
    same("sin(-5)", s, 0x3fffeeaf81f5e09933226af13e5563bc, 0x5fa382d05e8c711f3b8bc19899c7be96);
    same("cos(-5)", c, 0x3fffd22785706b4ad953e67dd68d7b97, 0xe8f39873791887cc8091e7e3cf84e4fd);
''')
