def run(ctx):
    n = 6 if ctx.quick else 9
    tables, _ = ctx.tlc("MatrixOps", {"MaxN": n, "Extra": "{11, 14}" if ctx.quick else "{10, 11, 12, 14, 17}", "MaxOps": 1, "MaxDim": 1, "B": 1}, spec="SpecLaws",
                        invariants=["InvLaws"], emit="EmitTables", label="operator laws, every size")
    ops, _ = ctx.tlc("MatrixOps", {"MaxN": 1, "Extra": "{}", "MaxOps": 6, "MaxDim": 4, "B": 9}, spec="SpecOps",
                     invariants=["InvInverse", "InvProduct"], emit="EmitOps", simulate=2000 if ctx.quick else 20000,
                     depth=9, label="operation sequences")
    big, _ = ctx.tlc("MatrixOps", {"MaxN": 1, "Extra": "{}", "MaxOps": 5, "MaxDim": 13, "B": 9}, spec="SpecOps",
                     invariants=["InvInverse"], emit="EmitOps", simulate=60 if ctx.quick else 1500,
                     depth=8, label="operation sequences on larger matrices")
    ctx.replay("c03", tables + ops + big)
