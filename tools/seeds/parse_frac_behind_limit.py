SEED = dict(property="E01",
 needs="a literal with exactly 77 digits in front of the radix point or the point right behind the 77th digit",
 breaks="one dropped integer digit too many is counted: the value is ten times too large",
 edits=[("src/conv/from_str/float_repr.rs", "n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);", "if n_int_digits > PartialSignif::MAX_N_DIGITS + 1 {\n                n_int_digits - PartialSignif::MAX_N_DIGITS\n            } else {\n                0\n            };")],
 demo='''
    // 78 integer digits: the last one, a zero, is not part of the significand
    let t = format!("{}0", "1".repeat(77));
    let x: f256 = t.parse().unwrap();
    let y: f256 = format!("{}e1", "1".repeat(77)).parse().unwrap();
    assert!((x - y).abs() < f256::from(1u8).mul_pow2(30), "{x:?} {y:?}");
''')
