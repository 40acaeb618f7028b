SEED = dict(property="E01",
 needs="a literal whose product with the table entry ends one unit below a tie although the exact value is above it",
 breaks="from_str rounds down without consulting the exact algorithm",
 edits=[("src/conv/from_str/fast_approx.rs", "if fract == tie - 1 {", "if fract == tie {")],
 demo='''
    let x: f256 = "115926731023464756111186702088491652021894827818317864538024677145049357e-963".parse().unwrap();
    same("literal", x, 0x3f46c09a4f91686d09cd65698bfac819, 0xae6275a2ea8f723edc8bdc6803439ea8);
''')
