def run(ctx):
    k = 1 if ctx.quick else 12
    cases = []
    for mode, r, h, n, num in (("file", 12, 3, 4, 240), ("big", 24, 6, 3, 24), ("stage", 0, 4, 5, 80), ("gauss", 0, 2, 5, 64), ("file", 16, 8, 14, 16), ("stage", 0, 9, 14, 8), ("gauss", 0, 2, 14, 8)):
        a, _ = ctx.tlc("Loads", {"MaxR": r, "MaxH": h, "MaxN": n, "Mode": '"%s"' % mode}, emit="EmitCase",
                       invariants=["InvCount", "InvLen", "InvWindows"], simulate=num * k, depth=4, label=mode)
        cases += a
    ctx.replay("c12", cases)
