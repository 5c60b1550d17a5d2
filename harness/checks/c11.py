def run(ctx):
    k = 1 if ctx.quick else 20
    a, _ = ctx.tlc("Resample", {"MaxOld": 6, "MaxNew": 12, "MaxS": 3, "B": 9, "Mode": '"filter"'},
                   invariants=["InvRange", "InvKeep"], emit="EmitCase", simulate=1200 * k, depth=4, label="resampling")
    b, _ = ctx.tlc("Resample", {"MaxOld": 2, "MaxNew": 6, "MaxS": 4, "B": 9, "Mode": '"noise"'}, emit="EmitCase",
                   simulate=400 * k, depth=4, label="noise functions")
    big, _ = ctx.tlc("Resample", {"MaxOld": 40, "MaxNew": 90, "MaxS": 14, "B": 9, "Mode": '"filter"'},
                     invariants=["InvRange", "InvKeep"], emit="EmitCase", simulate=24 * k, depth=4, label="longer resampling")
    nbig, _ = ctx.tlc("Resample", {"MaxOld": 2, "MaxNew": 40, "MaxS": 14, "B": 9, "Mode": '"noise"'}, emit="EmitCase",
                      simulate=24 * k, depth=4, label="noise functions on more series")
    a += big + nbig
    ctx.replay("c11", a + b + [{"mode": "stats", "seed": s} for s in range(4 if ctx.quick else 40)])
