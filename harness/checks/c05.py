def run(ctx):
    inv = ["InvRows", "InvOrder", "InvSym"]
    one, _ = ctx.tlc("Prior", {"N": 4, "MaxOps": 1, "MaxM": 3, "Random": "FALSE", "Copies": "FALSE"}, invariants=inv,
                     emit="EmitCase", label="all single additions")
    two, _ = ctx.tlc("Prior", {"N": 4, "MaxOps": 2, "MaxM": 1 if ctx.quick else 2, "Random": "FALSE",
                               "Copies": "TRUE"}, invariants=inv, emit="EmitCase", label="all pairs of additions and copies")
    rnd, _ = ctx.tlc("Prior", {"N": 6, "MaxOps": 5, "MaxM": 3, "Random": "TRUE", "Copies": "TRUE"}, invariants=inv,
                     emit="EmitCase", simulate=300 if ctx.quick else 8000, depth=8, label="random histories")
    cp, _ = ctx.tlc("Prior", {"N": 3, "MaxOps": 4, "MaxM": 1, "Random": "TRUE", "Copies": "TRUE"}, invariants=inv,
                    emit="EmitCase", simulate=300 if ctx.quick else 8000, depth=8, label="random short histories")
    big, _ = ctx.tlc("Prior", {"N": 12, "MaxOps": 8, "MaxM": 12, "Random": "TRUE", "Copies": "TRUE"}, invariants=inv,
                     emit="EmitCase", simulate=20 if ctx.quick else 600, depth=12, label="many parameters and beliefs")
    ctx.replay("c05", one + two + rnd + cp + big)
