def run(ctx):
    inv = ["InvFresh", "InvComplete", "InvRefused", "InvJoint"]
    prop = ["Touched", "ConfKept", "Continued"]
    ctx.tlc("IdentRuns", {"Nets": '{"a", "q"}', "MaxCmds": 2, "Random": "FALSE"}, invariants=inv, properties=prop, view="View",
            workers=8, label="all pairs of commands")
    ctx.tlc("IdentRuns", {"Nets": '{"p"}', "MaxCmds": 2, "Random": "FALSE"}, properties=["Ends"], workers=8, label="termination")
    k = 1 if ctx.quick else 8
    cases = []
    for nets, n, num, label in [('{"a", "b", "none"}', 8, 35, "single phase"), ('{"p", "a"}', 8, 25, "phases one by one"),
                                ('{"q"}', 7, 35, "sequences"), ('{"x"}', 2, 4, "known lines")]:
        cases += ctx.tlc("IdentRuns", {"Nets": nets, "MaxCmds": n, "Random": "TRUE"}, invariants=inv, properties=prop,
                         emit="EmitCase", simulate=num * k, depth=400, label=label)[0]
    ctx.notes.append("%d commands, %d of which cannot complete" %
                     (sum(len(c["cmds"]) for c in cases), sum(s["how"] != "done" for c in cases for s in c["cmds"])))
    cases.sort(key=lambda c: "x" not in c["nets"])
    ctx.replay("c02", cases, timeout=850, per_case=300)
