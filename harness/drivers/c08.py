import numpy as np
import drv, iterlib
from src.models.regression import BayesianRegression


def case(c):
    f, u = c["cf"], c["cf"]["u"]
    x, z = drv.arr(f["x"], drv.cint, 2) * 2.0 ** u["x"], drv.arr(f["z"], drv.cint, 2) * 2.0 ** u["z"]
    ys = [drv.arr(y, drv.crat, 2) for y in c["ys"]]
    ts = [drv.rat(t) for t in c["ts"]]
    prior = iterlib.ScriptedPrior(c["th"], c["M"], c["mu"], [drv.rat(p) for p in c["pen"]], f["T"] % 2, u)
    y0 = ys[0].copy()
    if f["st"] == "sym" and f["lim"] > 0:    # any matrix with this symmetric part is the same start
        skew = np.triu(np.arange(y0.size).reshape(y0.shape), 1)
        y0 = y0 + skew - skew.T
    y0 = y0 * 2.0 ** u["y"]
    kx, kz, ky = x.copy(), z.copy(), y0.copy()
    verbose = f["T"] % 3 == 0
    m = BayesianRegression(prior, lambda_value=drv.rat(f["lam"]), abs_tol=drv.rat(f["abs"]) * 2.0 ** u["obj"], rel_tol=drv.rat(f["rel"]),
                           max_iterations=f["lim"], verbose=verbose, **iterlib.builders(f["st"]))
    iterlib.quiet(m.fit, x, z, y0)
    iterlib.check_iterations(m, ys, ts, u, 1e-8)
    if f["n"] % 2:                           # a second fit has nothing to do with the first one
        iterlib.quiet(m.fit, x, z, y0)
        iterlib.check_iterations(m, ys, ts, u, 1e-8)
    drv.close("inputs unchanged", x, kx, 0, 0)
    drv.close("outputs unchanged", z, kz, 0, 0)
    drv.close("initial guess unchanged", y0, ky, 0, 0)


drv.run(case)
