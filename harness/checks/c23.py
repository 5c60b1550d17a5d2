def run(ctx):
    k = 1 if ctx.quick else 12
    cases = []
    for mode, n, more, num in (("single", 6, 5, 60), ("single", 9, 3, 12), ("three", 5, 3, 16)):
        a, _ = ctx.tlc("Pipeline", {"MaxN": n, "MaxMore": more, "Mode": '"%s"' % mode}, emit="EmitCase",
                       invariants=["InvNodes", "InvReduced", "InvLaplacian", "InvIdentifiable"], simulate=num * k, depth=4,
                       label="%s, up to %d nodes" % (mode, n))
        cases += a
    res = ctx.replay("c23", cases)
    ctx.notes.append("%d of %d cases determined the whole network well enough to compare the estimates" % (
        sum(r["obs"] for r in res if r.get("obs")), len(cases)))
