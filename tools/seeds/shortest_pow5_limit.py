SEED = dict(property="F01",
 needs="an even significand whose rounding interval ends exactly at a decimal with at most 72 digits that is a multiple of 5^86 or more",
 breaks="the shortest text is missed; a longer or different one is printed",
 real_luts=True,
 edits=[("src/conv/to_str/dec_repr.rs", "if g <= 102 {", "if g <= 85 {")],
 demo='''
    let s = format!("{:e}", b(0x4020f00000000088a2d6cc070ce4e6a7, 0xaf0e6a080d6441dda8efe85f974c3cea));
    if s != "8.786941005035427397738270748218331078103357015610358806952954206093312e158" {
        eprintln!("{s}");
        std::process::exit(1);
    }
''')
