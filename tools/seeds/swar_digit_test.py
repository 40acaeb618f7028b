SEED = dict(property="E02",
 needs="a character between '9' and '?' within an aligned group of eight digits",
 breaks="':' is taken for a digit in eight digit groups",
 edits=[("src/conv/from_str/common.rs", "let y = chunk.wrapping_add(0x4646464646464646);", "let y = chunk.wrapping_add(0x4646464646464546);")],
 demo='''
    assert!("123456:8".parse::<f256>().is_err());
    assert!("1234567890123456:8".parse::<f256>().is_err());
    assert!("1:345678".parse::<f256>().is_err());
    for c in [':', ';', '<', '?', '/'] {
        for p in 0..8 {
            let mut t: Vec<char> = "12345678".chars().collect();
            t[p] = c;
            let t: String = t.into_iter().collect();
            assert!(t.parse::<f256>().is_err(), "{t}");
        }
    }
    assert_eq!("12345678".parse::<f256>().unwrap(), f256::from(12345678u32));
''')
