def run(ctx):
    inv = ["InvUnits", "InvLimit", "InvFirstStop", "InvOneIter", "InvStruct"]
    k = 1 if ctx.quick else 25
    a, _ = ctx.tlc("Regression", {"MinN": 1, "MaxN": 2, "MaxT": 3, "Limit": 7, "Bnd": 3}, invariants=inv, emit="EmitCase",
                   simulate=1000 * k, depth=14, label="small networks, stopping rule")
    b, _ = ctx.tlc("Regression", {"MinN": 1, "MaxN": 4, "MaxT": 5, "Limit": 3, "Bnd": 3}, invariants=inv, emit="EmitCase",
                   simulate=300 * k, depth=8, label="larger networks")
    big, _ = ctx.tlc("Regression", {"MinN": 6, "MaxN": 8, "MaxT": 11, "Limit": 2, "Bnd": 2}, invariants=inv, emit="EmitCase",
                     simulate=16 * k, depth=8, label="many nodes")
    ctx.replay("c08", a + b + big)
