def run(ctx):
    inv = ["InvUnits", "InvOls", "InvTls"]
    small, _ = ctx.tlc("LeastSquares", {"MaxT": 2, "MinN": 1, "MaxN": 1, "MaxM": 1, "Bnd": 1, "Big": "FALSE"}, spec="SpecSmall", invariants=inv,
                       emit="EmitCase", label="all scalar problems")
    k = 1 if ctx.quick else 20
    rnd, _ = ctx.tlc("LeastSquares", {"MaxT": 7, "MinN": 1, "MaxN": 3, "MaxM": 3, "Bnd": 2, "Big": "FALSE"}, invariants=inv, emit="EmitCase",
                     simulate=900 * k, depth=4, label="random problems")
    big, _ = ctx.tlc("LeastSquares", {"MaxT": 9, "MinN": 1, "MaxN": 5, "MaxM": 2, "Bnd": 2, "Big": "FALSE"}, invariants=inv, emit="EmitCase",
                     simulate=500 * k, depth=4, label="more parameters")
    huge, _ = ctx.tlc("LeastSquares", {"MaxT": 32, "MinN": 6, "MaxN": 14, "MaxM": 14, "Bnd": 2, "Big": "TRUE"}, invariants=inv,
                      emit="EmitCase", simulate=60 * k, depth=4, label="many parameters")
    ctx.replay("c07", small + rnd + big + huge)
