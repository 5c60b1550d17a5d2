def run(ctx):
    inv = ["InvPos", "InvRot", "InvZero"]
    a, _ = ctx.tlc("NoiseCov", {"MaxT": 1, "MaxN": 1, "Random": "FALSE"}, invariants=inv, emit="EmitCase", workers=8,
                   label="all single measurements")
    b, _ = ctx.tlc("NoiseCov", {"MaxT": 5, "MaxN": 4, "Random": "TRUE"}, invariants=inv, emit="EmitCase",
                   simulate=1200 if ctx.quick else 30000, depth=4, label="measurement matrices")
    c, _ = ctx.tlc("NoiseCov", {"MaxT": 24, "MaxN": 14, "Random": "TRUE"}, invariants=inv, emit="EmitCase",
                   simulate=24 if ctx.quick else 600, depth=4, label="larger measurement matrices")
    ctx.replay("c10", a + b + c)
