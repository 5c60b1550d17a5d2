def run(ctx):
    k = 1 if ctx.quick else 12
    cases = []
    for three, n, t, num in (("FALSE", 6, 6, 240), ("TRUE", 4, 5, 160), ("FALSE", 14, 8, 24), ("TRUE", 12, 5, 12)):
        a, _ = ctx.tlc("Measurement", {"MaxN": n, "MaxT": t, "Three": three}, emit="EmitCase",
                       invariants=["InvPcc", "InvRows", "InvIdle"], simulate=num * k, depth=4,
                       label="three-phase" if three == "TRUE" else "single-phase")
        cases += a
    ctx.replay("c15", cases)
