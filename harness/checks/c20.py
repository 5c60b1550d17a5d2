def run(ctx):
    k = 1 if ctx.quick else 10
    cases = []
    for mode, n, t, num in (("single", 6, 4, 120), ("single", 3, 13, 16), ("balanced", 4, 2, 16), ("unbalanced", 4, 3, 40), ("single", 14, 4, 10), ("unbalanced", 12, 2, 3)):
        a, _ = ctx.tlc("PowerFlow", {"MaxN": n, "MaxT": t, "Mode": '"%s"' % mode}, emit="EmitCase",
                       invariants=["InvKirchhoff", "InvLosses", "InvIdle"], simulate=num * k, depth=4,
                       label="%s, up to %d steps" % (mode, t))
        cases += a
    ctx.replay("c20", cases)
