def run(ctx):
    inv = ["InvCentred", "InvOffset", "InvPhase", "InvPower"]
    a, _ = ctx.tlc("Prepare", {"MaxN": 3, "Big": "FALSE"}, invariants=inv, emit="EmitCase", simulate=240 if ctx.quick else 4000,
                   depth=3, label="random data and options")
    b, _ = ctx.tlc("Prepare", {"MaxN": 3, "Big": "TRUE"}, invariants=inv, emit="EmitCase", simulate=40 if ctx.quick else 200,
                   depth=3, label="with exact knowledge of lines")
    res = ctx.replay("c22", a + b)
    ctx.notes.append("%d of %d comparisons of estimates were numerically stable and made" % (
        sum(r["obs"][0] for r in res if r.get("obs")), sum(r["obs"][1] for r in res if r.get("obs"))))
