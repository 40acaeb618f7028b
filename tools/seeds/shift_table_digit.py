SEED = dict(property="E01",
 needs="a literal on a rounding tie whose leading digits equal those of 5^13 when the decimal is multiplied by 2^13",
 breaks="the literal parses to a value that is wrong in the leading digits",
 edits=[("src/conv/big_decimal.rs", "( 4, [1, 2, 2, 0, 7, 0, 3, 1, 2, 5, 0", "( 4, [1, 2, 2, 0, 7, 0, 3, 2, 2, 5, 0")],
 demo='''
    let x: f256 = "0.00001220703125000000000000000000000000000000000000000000000000000000000000006218041359668000130278173341216287691203520262394122597217066498521386098276947481739485402500047523123594051641227757789836471241719001619430162719481813837774097919464111328125".parse().unwrap();
    same("0.000012207031...", x, 0x3ffee999999999999999999999999999, 0x9999999999999999999999999999999a);
''')
