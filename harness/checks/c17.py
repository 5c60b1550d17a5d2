def run(ctx):
    a, _ = ctx.tlc("Metrics", {"MaxR": 1, "MaxC": 2, "B": 2, "Random": "FALSE"}, invariants=["InvOrder"], emit="EmitCase",
                   label="all pairs of short vectors")
    b, _ = ctx.tlc("Metrics", {"MaxR": 5, "MaxC": 5, "B": 20, "Random": "TRUE"}, invariants=["InvOrder"], emit="EmitCase",
                   simulate=1500 if ctx.quick else 40000, depth=4, label="random matrices")
    c, _ = ctx.tlc("Metrics", {"MaxR": 40, "MaxC": 14, "B": 20, "Random": "TRUE"}, invariants=["InvOrder"], emit="EmitCase",
                   simulate=60 if ctx.quick else 2000, depth=4, label="larger random matrices")
    ctx.replay("c17", a + b + c)
