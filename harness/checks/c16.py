def run(ctx):
    inv = ["InvPartition", "InvCount", "InvBlocks", "InvExplains"]
    a, _ = ctx.tlc("ThreeSeq", {"MaxN": 3, "Big": "FALSE"}, invariants=inv, emit="EmitCase", simulate=160 if ctx.quick else 2500,
                   depth=8, label="random interleavings")
    b, _ = ctx.tlc("ThreeSeq", {"MaxN": 2, "Big": "FALSE"}, invariants=inv, emit="EmitCase", simulate=80 if ctx.quick else 800,
                   depth=8, label="small random interleavings")
    big, _ = ctx.tlc("ThreeSeq", {"MaxN": 29, "Big": "TRUE"}, invariants=inv[:3], emit="EmitCase", simulate=8 if ctx.quick else 40,
                     depth=8, label="with exact knowledge of lines")
    res = ctx.replay("c16", a + b)
    bigres = ctx.replay("c16", big, label="exact knowledge")
    ctx.notes.append("%d sequences with exact knowledge compared" % sum(sum(r["obs"]) - 1 for r in bigres if r.get("obs")))
    short = sum(1 for r in res if r.get("obs") and len(set(r["obs"])) > 1)
    ctx.notes.append("%d cases in which the sequences needed different numbers of iterations" % short)
