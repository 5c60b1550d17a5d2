import numpy as np
import drv
D = drv.scratch_data()
import prep
from conf import identification
from src.identification import run, run3ph


def archive(name):
    with np.load(D / "simulations_output" / (name + ".npz"), allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


def assemble(parts, cols, n):
    y = np.zeros((n, n), dtype=complex)
    for p, cs in zip(parts, cols):
        y[np.ix_(cs, cs)] = p
    return y


def big(c, V, I, ids, cols, n):
    """with exact knowledge of lines, which exists for networks of at least 29 nodes"""
    identification.lambda_eiv = 10.0
    init = drv.arr(c["init"], drv.cint)
    init = (init + init.T) / 2
    ex = init + 1
    sv, si, pmu = 0.1 + 0.1j, 0.2 + 0.05j, np.array(c["pmu"], dtype=float)
    refs = [prep.stable(lambda a, b: np.asarray(prep.quiet(
        run.bayesian_eiv, "alone", a, b, None, sv, si, pmu[cs], init[np.ix_(cs, cs)], ex[np.ix_(cs, cs)],
        False, c["weighted"], 1, c["sync"], False)[0]), 2e-5, V[:, cs], I[:, cs]) for cs in cols]
    y, _ = prep.quiet(run3ph.bayesian_eiv, "net", V, I, ids, sv, si, pmu, init, ex, False, c["weighted"], 1, c["sync"], False)
    for s, (cs, r) in enumerate(zip(cols, refs)):
        if r is not None:
            drv.close("estimate of sequence %d with exact knowledge" % s, y[np.ix_(cs, cs)], r, 1e-3)
    drv.check("coupling of sequences", not np.any(y[ids[:, None] != ids[None, :]]))
    return [1] + [r is not None for r in refs]


def case(c):
    for f in (D / "simulations_output").glob("*.npz"):
        f.unlink()
    identification.lambda_lasso = identification.lambda_eiv = drv.rat(c["lam"])
    identification.lambdaprime, identification.abs_tol, identification.rel_tol = 2.0, drv.rat(c["abs"]), drv.rat(c["rel"])
    identification.use_tls_diag, identification.contrast_each_row, identification.regularize_diag = False, True, False
    ids, cols, n = np.array(c["ids"]), c["cols"], len(c["ids"])
    V, I = drv.arr(c["V"], drv.cint), drv.arr(c["I"], drv.cint)
    est = drv.arr(c["est"], drv.cint)
    # ---------------------------------------------------------------- exact data: the estimates are known
    full = not c["exact"] and np.linalg.matrix_rank(V - V.mean(0)) == n and np.linalg.cond(V - V.mean(0)) < 1e3
    if full:
        got = prep.quiet(run3ph.standard_methods, "net", V, I, ids, False, 0, False)
        for what, g in zip(("ordinary least squares", "total least squares", "lasso without iterations"), got):
            drv.close(what, g, est, 1e-7, 1e-9)
    # ---------------------------------------------------------------- noisy data: as identified alone
    In = I + drv.arr(c["noise"], drv.cint)
    keep = V.copy(), In.copy(), ids.copy()
    lap = c["lap"]
    if c["exact"]:
        return big(c, V, In, ids, cols, n)
    alone = [prep.quiet(run.standard_methods, "alone", V[:, cs], In[:, cs], None, lap, c["lasso"], False) for cs in cols]
    got = prep.quiet(run3ph.standard_methods, "net", V, In, ids, lap, c["lasso"], bool(n % 2))
    for k, what in enumerate(("ordinary least squares", "total least squares", "lasso")):
        drv.close(what + " of all sequences", got[k], assemble([a[k] for a in alone], cols, n), 1e-9, 1e-12)
        drv.close(what + " saved", archive("standard_results_net")["otl"[k]], got[k], 0, 0)
    # ---------------------------------------------------------------- Bayesian
    init = drv.arr(c["init"], drv.cint)
    init = (init + init.T) / 2
    sv, si, pmu = 0.1 + 0.1j, 0.2 + 0.05j, np.array(c["pmu"], dtype=float)
    alone = [prep.quiet(run.bayesian_eiv, "alone", V[:, cs], In[:, cs], None, sv, si, pmu[cs], init[np.ix_(cs, cs)], None,
                        lap, c["weighted"], c["its"], c["sync"], False) for cs in cols]
    y, it = prep.quiet(run3ph.bayesian_eiv, "net", V, In, ids, sv, si, pmu, init, None, lap, c["weighted"], c["its"],
                       c["sync"], bool(n % 2))
    lens = [len(a[1]) for a in alone]
    finite = all(np.all(np.isfinite(a[0])) for a in alone)
    if finite:
        drv.close("Bayesian estimate", y, assemble([a[0] for a in alone], cols, n), 1e-9, 1e-12)
        drv.same("number of iterations", len(it), min(lens))
        for k, s in enumerate(it):
            drv.same("number of iteration %d" % k, s.iteration, k)
            drv.close("parameters of iteration %d" % k, s.fitted_parameters,
                      assemble([a[1][k].fitted_parameters for a in alone], cols, n), 1e-9, 1e-12)
            drv.close("target of iteration %d" % k, s.target_function, sum(a[1][k].target_function for a in alone), 1e-9, 1e-12)
        saved = archive("bayesian_results_net")
        drv.close("saved estimate", saved["y"], y, 0, 0)
        prep.same_iterations("saved history", list(saved["i"]), list(it))
    drv.check("measurements or labels changed", np.array_equal(V, keep[0]) and np.array_equal(In, keep[1]) and np.array_equal(ids, keep[2]))
    # ---------------------------------------------------------------- phases: jointly by the standard methods, refused by the Bayesian
    before = {p.name: p.read_bytes() for p in (D / "simulations_output").glob("*.npz")}
    try:
        prep.quiet(run3ph.bayesian_eiv, "net", V, In, ids + 1, sv, si, pmu, init, None, lap, c["weighted"], c["its"], True, False)
        refused = False
    except NotImplementedError:
        refused = True
    drv.check("Bayesian identification of phases is refused", refused)
    drv.check("a refused identification writes", before == {p.name: p.read_bytes() for p in (D / "simulations_output").glob("*.npz")})
    if np.linalg.cond(V - V.mean(0)) < 1e3:
        a = prep.quiet(run.standard_methods, "alone", V, In, None, lap, c["lasso"], False)
        b = prep.quiet(run3ph.standard_methods, "net", V, In, None, lap, c["lasso"], False)
        for k, what in enumerate(("ordinary least squares", "total least squares", "lasso")):
            drv.close(what + " of all phases together", b[k], a[k], 1e-7, 1e-9)
    return lens


drv.run(case)
