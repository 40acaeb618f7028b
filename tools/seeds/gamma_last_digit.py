SEED = dict(property="G01",
 needs="a use of the constant GAMMA whose last bits matter",
 breaks="GAMMA is not the closest number to Euler's constant",
 edits=[("src/consts.rs", "118855979546025341659232107741091106323", "118855979546025341659232107741091106232")],
 demo='''
    same("GAMMA", ::f256::consts::GAMMA, 85069992808959086250767892500525883434, 118855979546025341659232107741091106323);
''')
