def run(ctx):
    k = 1 if ctx.quick else 10
    cases, _ = ctx.tlc("Report", {"MaxN": 4, "B": 3}, invariants=["InvUnitary", "InvSparse"], emit="EmitCase",
                       simulate=320 * k, depth=4, label="reports")
    big, _ = ctx.tlc("Report", {"MaxN": 11, "B": 3}, invariants=["InvUnitary", "InvSparse"], emit="EmitCase",
                     simulate=16 * k, depth=4, label="reports of larger networks")
    ctx.replay("c21", cases + big)
