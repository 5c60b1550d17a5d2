import numpy as np
import drv
D = drv.scratch_data()
import prep
from conf import identification
from src.identification import run, run3ph

TOL = 2e-5


def configure(c):
    identification.lambda_lasso, identification.lambda_eiv = drv.rat(c["lamlasso"]), drv.rat(c["lameiv"])
    identification.lambdaprime, identification.abs_tol, identification.rel_tol = drv.rat(c["lamp"]), drv.rat(c["abs"]), drv.rat(c["rel"])
    identification.use_tls_diag, identification.contrast_each_row, identification.regularize_diag = c["ud"], True, c["rd"]


class Count(object):
    done = all = 0


def against(cnt, what, got, ref):
    """compares with a reference that is not too sensitive"""
    cnt.all += 1
    if ref is not None:
        cnt.done += 1
        drv.close(what, got, ref, 20 * TOL, 1e-9)


def archive(name):
    with np.load(D / "simulations_output" / (name + ".npz"), allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


def case(c):
    configure(c)
    n, lap, its = c["n"], c["lap"], c["its"]
    V, I, y = drv.arr(c["V"], drv.crat), drv.arr(c["I"], drv.crat), drv.arr(c["y"], drv.cint)
    keep = V.copy(), I.copy(), y.copy()
    cnt = Count()
    for f in (D / "simulations_output").glob("*.npz"):
        f.unlink()
    # ---------------------------------------------------------------- standard methods
    v, i = drv.arr(c["std"]["v"], drv.crat), drv.arr(c["std"]["i"], drv.crat)
    for mod in (run, run3ph):
        if n > 3:
            break
        w = mod.__name__.split(".")[-1] + ": "
        got = prep.quiet(mod.standard_methods, "net", V, I, None, lap, c["lasso"], bool(n % 2))
        against(cnt, w + "ordinary least squares", got[0], prep.stable(prep.ols, TOL, v, i))
        against(cnt, w + "total least squares", got[1], prep.stable(prep.tls, TOL, v, i))
        against(cnt, w + "lasso", got[2], prep.stable(lambda a, b: prep.lasso(a, b, lap, c["lasso"]), TOL, v, i))
        saved = archive("standard_results_net")
        for k, g in zip("otl", got):
            drv.close(w + "saved " + k, saved[k], g, 0, 0)
        # nothing given: what was saved, unchanged
        again = prep.quiet(mod.standard_methods, "net", None, I, None, lap, c["lasso"], False)
        for k, g, h in zip("otl", got, again):
            drv.close(w + "loaded " + k, h, g, 0, 0)
            drv.close(w + "still saved " + k, archive("standard_results_net")[k], g, 0, 0)
        drv.check("measurements changed", np.array_equal(V, keep[0]) and np.array_equal(I, keep[1]))
    # ---------------------------------------------------------------- Bayesian
    y0 = (y + y.T) / 2
    ex = None
    if c["exact"]:
        ex = (y + y.T) * 0.5 + 1.0
    sv, si = drv.rat(c["svm"]) + 1j * drv.rat(c["svp"]), drv.rat(c["sim"]) + 1j * drv.rat(c["sip"])
    pmu = np.array([drv.rat(q) for q in c["pmu"]])
    p = c["plan"]
    pv, pi = drv.arr(p["v"], drv.crat), drv.arr(p["i"], drv.crat)

    def weight(w):
        if not w:
            return None
        return prep.covariance(w[0]["model"], drv.arr(w[0]["of"], drv.crat), [drv.rat(q) for q in w[0]["mag"]], drv.rat(w[0]["ph"]), w[0]["inv"])
    wv, wi = weight(p["wv"]), weight(p["wi"])
    if its == 0:
        st = {"y": y0 * 2, "i": np.array([1, 2, 3])}
        np.savez(D / "simulations_output/bayesian_results_net.npz", **st)
        before = (D / "simulations_output/bayesian_results_net.npz").read_bytes()
        got = prep.quiet(run.bayesian_eiv, "net", V, I, None, sv, si, pmu, y0, ex, lap, c["weighted"], 0, c["sync"], False)
        drv.close("loaded estimate", got[0], st["y"], 0, 0)
        drv.same("loaded history", list(got[1]), [1, 2, 3])
        drv.check("saved estimate changed", (D / "simulations_output/bayesian_results_net.npz").read_bytes() == before)
    else:
        got = prep.quiet(run.bayesian_eiv, "net", V, I, None, sv, si, pmu, y0, ex, lap, c["weighted"], its, c["sync"], bool(n % 2))
        # ties of the stopping rule are as sensitive as the estimates: the reference tells
        ref = prep.stable(lambda a, b: prep.flat(prep.eiv(a, b, wv, wi, y0, ex, lap, its)), TOL, pv, pi)
        cnt.all += 1
        if ref is not None:
            cnt.done += 1
            want = prep.eiv(pv, pi, wv, wi, y0, ex, lap, its)
            drv.same("number of iterations", len(got[1]), len(want[1]))
            drv.close("estimate", got[0], want[0], 20 * TOL)
            drv.close("history", prep.flat(got), prep.flat(want), 20 * TOL)
            drv.close("estimate is the last of the history", got[0], got[1][-1].fitted_parameters, 0, 0)
            saved = archive("bayesian_results_net")
            drv.close("saved estimate", saved["y"], got[0], 0, 0)
            prep.same_iterations("saved history", list(saved["i"]), list(got[1]))
    # ---------------------------------------------------------------- uncertainty
    if n <= 3:
        ref = prep.stable(lambda a, b: prep.information(a, b, weight([c["unc"]["wv"]]), weight([c["unc"]["wi"]]), y0), TOL, v, i)
        got = prep.quiet(run.eiv_fim, "net", V, I, sv, si, pmu, y0, 30, lap, bool(n % 2))
        against(cnt, "information", got[0], ref)
        if ref is not None:
            drv.close("error covariance is the inverse of the information", np.asarray(got[0]) @ np.asarray(got[1]), np.eye(2 * n * n),
                      1e-12 * max(1, np.linalg.cond(got[0])), 1e-12 * max(1, np.linalg.cond(got[0])))
        saved = archive("fim_results_net")
        for k, g in (("f", got[0]), ("c", got[1]), ("e", got[2]), ("y", y0), ("v", V), ("i", I)):
            drv.close("saved analysis " + k, saved[k], g, 0, 0)
        for k, g, h in zip("fce", got, prep.quiet(run.eiv_fim, "net", None, None, sv, si, pmu, y0, 30, lap, False)):
            drv.close("loaded analysis " + k, h, g, 0, 0)
    drv.check("measurements changed", np.array_equal(V, keep[0]) and np.array_equal(I, keep[1]) and np.array_equal(y, keep[2]))
    drv.close("ratings", pmu, [drv.rat(q) for q in c["pmu"]], 0, 0)
    return [cnt.done, cnt.all]


drv.run(case)
