def run(ctx):
    inv = ["InvRoundTrip", "InvBalanced", "InvCurrents"]
    a, _ = ctx.tlc("Fortescue", {"MaxN": 2 if ctx.quick else 3, "MaxT": 1, "MaxOps": 2, "Random": "FALSE", "B": 1},
                   invariants=inv, emit="EmitCase", workers=8, label="all unit matrices")
    b, _ = ctx.tlc("Fortescue", {"MaxN": 4, "MaxT": 3, "MaxOps": 4, "Random": "TRUE", "B": 4}, invariants=inv,
                   emit="EmitCase", simulate=200 if ctx.quick else 4000, depth=8, label="random matrices")
    c, _ = ctx.tlc("Fortescue", {"MaxN": 12, "MaxT": 3, "MaxOps": 2, "Random": "TRUE", "B": 4}, invariants=inv,
                   emit="EmitCase", simulate=30 if ctx.quick else 300, depth=8, label="larger random matrices")
    ctx.replay("c04", a + b + c)
