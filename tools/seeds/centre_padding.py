SEED = dict(property="F03",
 needs="centred output in a field that is an odd number of characters too wide",
 breaks="the odd padding character is written on the wrong side",
 edits=[("src/conv/to_str/formatted.rs", "let n_to_fill_pre = n_to_fill / 2;", "let n_to_fill_pre = (n_to_fill + 1) / 2;")],
 real_luts=True,
 demo='''
    let s = format!("{:*^8e}", f256::from(25));
    if s != "*2.5e1**" {
        eprintln!("{s}");
        std::process::exit(1);
    }
''')
