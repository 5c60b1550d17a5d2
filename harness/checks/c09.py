def run(ctx):
    inv = ["InvUnits", "InvLimit", "InvFirstStop", "InvStruct", "InvStationary"]
    k = 1 if ctx.quick else 20
    cases = []
    for label, mode, n, t, lim, yb, num in [("no weights, scalar", "flat", 1, 3, 6, 3, 250),
                                            ("no weights", "flat", 2, 3, 3, 1, 200),
                                            ("weights per entry", "iso", 2, 2, 4, 1, 250),
                                            ("weight blocks", "block", 3, 3, 1, 2, 400),
                                            ("weight blocks, more nodes", "block", 7, 5, 1, 1, 12)]:
        c, _ = ctx.tlc("Eiv", {"MinN": max(1, n - 2), "MaxN": n, "MaxT": t, "Limit": lim, "Mode": '"%s"' % mode, "YB": yb}, invariants=inv,
                       emit="EmitCase", simulate=num * k, depth=12, label=label)
        cases += c
    ctx.replay("c09", cases)
