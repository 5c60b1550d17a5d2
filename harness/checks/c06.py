def run(ctx):
    inv = ["InvDiagFree", "InvOnce", "InvOwnSums", "InvKnown", "InvCount"]
    q = ctx.quick
    cases = []
    for kind, lo, hi, num in (("lasso", 2, 5, 160 if q else 3000), ("complex", 2, 5, 480 if q else 8000),
                              ("loads", 2, 5, 80 if q else 1000), ("known", 29, 31, 40 if q else 200)):
        cases += ctx.tlc("BuiltPriors", {"Kind": '"%s"' % kind, "MinN": lo, "MaxN": hi, "B": 9}, invariants=inv,
                         emit="EmitCase", simulate=num, depth=12, label="priors: " + kind)[0]
    ctx.replay("c06", cases)
