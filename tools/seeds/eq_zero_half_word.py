SEED = dict(property="B03",
 needs="a subnormal whose only significand bits are in the second quarter of the encoding, e.g. 2^64 times the smallest one",
 breaks="eq_zero reports true for a non-zero subnormal, so is_subnormal reports false",
 edits=[("src/lib.rs", "(self.bits.hi.0 << 1) == 0 && self.bits.lo.0 == 0\n    }", "(self.bits.hi.0 << 1) == 0 && self.bits.lo.0 as u64 == 0\n    }")],
 demo='''
    for i in 0..236 {
        let x = if i < 128 { b(0, 1 << i) } else { b(1 << (i - 128), 0) };
        if x.eq_zero() || !x.is_subnormal() {
            eprintln!("2^{i} times the smallest subnormal is taken for zero");
            std::process::exit(1);
        }
    }
''')
