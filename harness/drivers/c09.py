import numpy as np
import scipy.sparse as sp
import drv, iterlib
from src.models.error_in_variable import BayesianEIVRegression


def weight(w, fmt):
    w = np.array(w, dtype=float)                 # T x n x 3
    p, q, r = (sp.diags(w[:, :, k].flatten("F")) for k in range(3))
    return sp.bmat([[p, q], [q, r]], format=fmt)


def case(c):
    f, u = c["cf"], c["cf"]["u"]
    x, z = drv.arr(f["x"], drv.crat, 2) * 2.0 ** u["x"], drv.arr(f["z"], drv.crat, 2) * 2.0 ** u["z"]
    ys = [drv.arr(y, drv.crat, 2) for y in c["ys"]]
    ts = [drv.rat(t) for t in c["ts"]]
    lam = drv.rat(f["lam"])
    cost = [sum(drv.rat(q) for q in s["cost"]) for s in c["steps"]]
    pen = [(t * s["s"] - co) / lam for t, s, co in zip(ts, c["steps"], cost)]
    prior = iterlib.ScriptedPrior(c["th"], [s["M"] for s in c["steps"]], [s["mu"] for s in c["steps"]], pen, f["T"] % 2, u)
    fmt = ("csr", "csc", "coo")[f["n"] % 3]
    wx = weight(f["wx"], fmt) * 2.0 ** u["wx"] if f["given"] in ("both", "x") else None
    wz = weight(f["wz"], fmt) * 2.0 ** u["wz"] if f["given"] in ("both", "z") else None
    y0 = ys[0] * 2.0 ** u["y"]
    kx, kz, ky = x.copy(), z.copy(), y0.copy()
    kwx, kwz = (None if w is None else w.toarray() for w in (wx, wz))
    m = BayesianEIVRegression(prior, lambda_value=lam, abs_tol=drv.rat(f["abs"]) * 2.0 ** u["obj"], rel_tol=drv.rat(f["rel"]),
                              max_iterations=f["lim"], verbose=f["T"] % 3 == 0,
                              **iterlib.builders(f["st"]))
    iterlib.quiet(m.fit, x, z, wx, wz, y0)
    big = max([1.0] + cost)
    iterlib.check_iterations(m, ys, ts, u, 2e-4 if f["given"] == "both" else 1e-8, 2e-6 * big)
    if f["T"] % 2:                           # a second fit has nothing to do with the first one
        iterlib.quiet(m.fit, x, z, wx, wz, y0)
        iterlib.check_iterations(m, ys, ts, u, 2e-4 if f["given"] == "both" else 1e-8, 2e-6 * big)
    drv.close("voltages unchanged", x, kx, 0, 0)
    drv.close("currents unchanged", z, kz, 0, 0)
    drv.close("initial guess unchanged", y0, ky, 0, 0)
    if wx is not None:
        drv.close("voltage weights unchanged", wx, kwx, 0, 0)
    if wz is not None:
        drv.close("current weights unchanged", wz, kwz, 0, 0)


drv.run(case)
