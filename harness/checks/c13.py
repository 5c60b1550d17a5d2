def run(ctx):
    k = 1 if ctx.quick else 10
    cases = []
    for three, num, n, d in (("FALSE", 160, 16, 18), ("TRUE", 48, 12, 14)):
        a, _ = ctx.tlc("Network", {"MaxB": 6, "MaxL": 12, "Len0": n, "Three": three, "Grow": "FALSE", "Areas": 1}, emit="EmitCase",
                       invariants=["InvIds", "InvLines", "InvLaplacian", "InvRebuild", "InvPassive", "InvLoad", "InvAreas"],
                       simulate=num * k, depth=400, label="three-phase edits" if three == "TRUE" else "single-phase edits")
        cases += a
    for three, num, n, b in (("FALSE", 16, 50, 13), ("TRUE", 8, 36, 12)):
        a, _ = ctx.tlc("Network", {"MaxB": b, "MaxL": 30, "Len0": n, "Three": three, "Grow": "TRUE", "Areas": 1}, emit="EmitCase",
                       invariants=["InvIds", "InvLines", "InvLaplacian", "InvRebuild", "InvPassive", "InvLoad", "InvAreas"],
                       simulate=num * k, depth=800, label="three-phase edits, more buses" if three == "TRUE" else "single-phase edits, more buses")
        cases += a
    a, _ = ctx.tlc("Network", {"MaxB": 9, "MaxL": 20, "Len0": 20, "Three": "FALSE", "Grow": "TRUE", "Areas": 3}, emit="EmitCase",
                   invariants=["InvIds", "InvLines", "InvLaplacian", "InvRebuild", "InvPassive", "InvLoad", "InvAreas"],
                   simulate=40 * k, depth=600, label="single-phase edits, separate areas")
    cases += a
    if not ctx.quick:
        a, _ = ctx.tlc("Network", {"MaxB": 9, "MaxL": 20, "Len0": 40, "Three": "FALSE", "Grow": "TRUE", "Areas": 1}, emit="EmitCase",
                       invariants=["InvIds", "InvLines", "InvLaplacian", "InvRebuild", "InvPassive", "InvLoad", "InvAreas"],
                       simulate=200, depth=1000, label="long single-phase histories")
        cases += a
    ctx.replay("c13", cases)
