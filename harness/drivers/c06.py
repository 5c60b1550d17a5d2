import numpy as np
import drv
drv.scratch_data()
from src.identification import run, run3ph
from src.models.smooth_prior import SparseSmoothPrior
from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, elimination_lap_matrix


def stack(rows, m):
    L, mu = np.zeros((len(rows), m)), np.zeros(len(rows))
    for k, r in enumerate(rows):
        for j, q in r["coef"]:
            L[k, j] += drv.rat(q)
        mu[k] = drv.rat(r["mu"])
    return L, mu


def canon(L, mu):
    """beliefs up to their order and sign"""
    a = np.hstack((L, np.asarray(mu).reshape(-1, 1))).astype(float)
    for r in a:
        nz = np.nonzero(np.abs(r) > 1e-14)[0]
        if len(nz) and r[nz[0]] < 0:
            r *= -1
    key = np.round(a, 9) + 0.0
    return a[np.lexsort(key.T[::-1])]


def compare(what, prior, rows, m):
    L = drv.dense(prior.L)
    drv.same(what + ": parameters", L.shape[1], m)
    drv.same(what + ": number of beliefs", (L.shape[0], len(prior.mu), len(prior.gamma)), (len(rows),) * 3)
    drv.close(what + ": beliefs", canon(L, prior.mu), canon(*stack(rows, m)))
    drv.check(what + ": order of the beliefs", np.all(np.asarray(prior.gamma) == 1))
    # what the regression uses of it
    rng = np.random.RandomState(1)
    x = rng.randn(m)
    A, b, _ = prior.log_distribution(x)
    Lw, muw = stack(rows, m)
    drv.check(what + ": smoothing is small", 0 <= prior.alpha <= 1e-4)
    w = np.abs(Lw @ x - muw) + prior.alpha
    drv.close(what + ": quadratic term", A, Lw.T @ np.diag(1 / w) @ Lw, rtol=1e-6)
    drv.close(what + ": linear term", np.asarray(b).squeeze(), Lw.T @ (muw / w), rtol=1e-6)


def case(c):
    n, lap = c["n"], c["st"] == "lap"
    y = drv.arr(c["y"], drv.cint)
    m = (n * (n - 1) if lap else n * (n + 1))
    keep = y.copy()
    if c["kind"] == "lasso":
        compare("lasso prior", run.build_lasso_prior(n, y, lap), c["rows"], m)
        D = duplication_matrix(n) @ transformation_matrix(n) if lap else duplication_matrix(n)
        E = elimination_lap_matrix(n) @ elimination_sym_matrix(n) if lap else elimination_sym_matrix(n)
        compare("lasso prior of three phases", run3ph.build_lasso_prior(n, y, E, D), c["rows"], m)
    elif c["kind"] == "complex":
        p = run.build_complex_prior(n, drv.rat(c["lp"]), y, laplacian=lap, use_tls_diag=c["ud"], contrast_each_row=True,
                                    regularize_diag=c["rd"])
        compare("complex prior", p, c["rows"], m)
        if not c["ud"] and not c["rd"] and not lap:
            compare("complex prior with defaults", run.build_complex_prior(n, drv.rat(c["lp"]), y), c["rows"], m)
    elif c["kind"] == "loads":
        compare("exact prior", run.build_loads_id_prior(n, y), c["rows"], m)
    else:
        kind = ("wrong " if c["wrong"] else "") + ("optimal" if c["best"] else "suboptimal")
        names = [kind] + (["optimal wrong" if c["best"] else "suboptimal wrong"] if c["wrong"] else [])
        for name in names:
            p = run.add_known_lines(n, SparseSmoothPrior(1e-8, n=m), drv.rat(c["lp"]), y, lap, name)
            compare("known lines (%s)" % name, p, c["rows"], m)
        # beliefs that were there before stay
        q = SparseSmoothPrior(1e-8, n=m)
        q.add_sparsity_prior(np.arange(3), np.array([2., 3., 4.]), 1)
        q = run.add_known_lines(n, q, drv.rat(c["lp"]), y, lap, kind)
        extra = [{"coef": [[k, [k + 2, 1]]], "mu": [0, 1]} for k in range(3)]
        compare("known lines added to others", q, extra + c["rows"], m)
    drv.check("the estimate given is changed", np.array_equal(y, keep))


drv.run(case)
