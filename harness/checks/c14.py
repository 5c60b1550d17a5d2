def run(ctx):
    k = 1 if ctx.quick else 12
    a, _ = ctx.tlc("Kron", {"MaxN": 4, "Mode": '"small"', "Big": "FALSE"}, emit="EmitCase",
                   invariants=["InvOrderFree", "InvDefinition", "InvGrouping", "InvStructure"], label="all small Laplacians")
    for mode, n, num in (("matrix", 7, 400), ("net", 6, 240), ("phase", 3, 240), ("node", 5, 200)):
        b, _ = ctx.tlc("Kron", {"MaxN": n, "Mode": '"%s"' % mode, "Big": "FALSE"}, invariants=["InvStructure", "InvReduced", "InvEquivalent"],
                       emit="EmitCase", simulate=num * k, depth=4, label=mode)
        a += b
    for mode, n, num in (("matrix", 16, 60), ("net", 14, 40), ("phase", 6, 32), ("node", 10, 24)):
        b, _ = ctx.tlc("Kron", {"MaxN": n, "Mode": '"%s"' % mode, "Big": "TRUE"}, invariants=["InvReduced", "InvPivots"],
                       emit="EmitCase", simulate=num * k, depth=4, label=mode + ", many nodes")
        a += b
    ctx.replay("c14", a)
