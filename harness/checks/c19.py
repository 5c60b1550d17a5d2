def run(ctx):
    inv = ["InvRestored", "InvOneValue", "InvRefused", "InvExperiments"]
    a, _ = ctx.tlc("Sweep", {"MaxRuns": 1, "SeqMode": "TRUE"}, invariants=inv, properties=["Ends"], workers=1, emit="EmitCase",
                   label="every option")
    b, _ = ctx.tlc("Sweep", {"MaxRuns": 2, "SeqMode": "FALSE"}, invariants=inv, emit="EmitCase",
                   simulate=40 if ctx.quick else 400, depth=2000, label="two runs with failures")
    ctx.replay("c19", a + b)
