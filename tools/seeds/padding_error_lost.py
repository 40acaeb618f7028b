SEED = dict(property="F06",
 needs="a writer that fails while the padding behind a left aligned or centred number is written",
 breaks="the error is lost and the format call reports success",
 edits=[("src/conv/to_str/formatted.rs", "                for i in 0..n {\n                    buf.write_char(filler)?;\n                }", "                for i in 0..n {\n                    if buf.write_char(filler).is_err() {\n                        break;\n                    }\n                }")],
 demo='''
    use std::fmt::Write;
    struct Full(usize);
    impl Write for Full {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.0 -= s.len();
            Ok(())
        }
    }
    let x = f256::from(1.5f64);
    for n in 0..12 {
        assert!(write!(Full(n), "{x:<12}").is_err(), "room for {n} of 12 characters");
        assert!(write!(Full(n), "{x:^12}").is_err(), "room for {n} of 12 characters");
        assert!(write!(Full(n), "{x:>12}").is_err(), "room for {n} of 12 characters");
    }
    assert!(write!(Full(12), "{x:^12}").is_ok());
''')
