"""What C08 and C09 share: the prior environment chosen by the specification."""
import contextlib, io
import numpy as np
import scipy.sparse as sp
import drv
from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, \
    elimination_lap_matrix

DT = {"full": lambda n: np.eye(n * n), "sym": lambda n: duplication_matrix(n),
      "lap": lambda n: duplication_matrix(n) @ transformation_matrix(n)}
E = {"full": lambda n: np.eye(n * n), "sym": lambda n: elimination_sym_matrix(n),
     "lap": lambda n: elimination_lap_matrix(n) @ elimination_sym_matrix(n)}


class ScriptedPrior(object):
    """answers at the k-th parameter vector with the k-th quadratic model and the penalty of that vector"""

    def __init__(self, th, M, mu, pen, dense, u):
        self.unit = 2.0 ** u["y"]
        self.th = [np.array([drv.rat(q) for q in t]) for t in th]
        self.M = [2.0 ** u["m"] * np.array([[drv.rat(q) for q in r] for r in m]) for m in M]
        self.mu = [2.0 ** u["mu"] * np.array([drv.rat(q) for q in m]) for m in mu]
        self.pen, self.dense = [2.0 ** u["obj"] * p for p in pen], dense
        self.points = []

    def log_distribution(self, x):
        x = np.asarray(x, dtype=float).reshape(-1) / self.unit
        if x.shape != self.th[0].shape:
            raise drv.Mismatch("prior evaluated at %d parameters instead of %d" % (x.size, self.th[0].size))
        dist = [np.max(np.abs(x - t)) for t in self.th]
        k = int(np.argmin(dist))
        if not dist[k] < 1e-2:
            raise drv.Mismatch("the prior is evaluated at %s, which is none of the expected iterates %s" % (x, self.th))
        self.points.append(k)
        m = min(k, len(self.M) - 1)          # the last iterate has no successor
        if m < 0:
            M, mu = np.eye(x.size), np.zeros(x.size)      # never used
        else:
            M, mu = self.M[m], self.mu[m]
        return (M if self.dense else sp.csr_matrix(M)), mu.copy(), (self.pen[k - 1] if k else 12345.678)


def quiet(f, *a):
    with contextlib.redirect_stderr(io.StringIO()):
        return f(*a)


def builders(st):
    """the defaults are those without elimination"""
    return {} if st == "full" else {"dt_matrix_builder": DT[st], "e_matrix_builder": E[st]}


def check_iterations(model, ys, ts, u, rtol0, ttol=1e-6):
    """the voltages are computed in single precision, and what an iteration starts from is off by the previous error"""
    it = model.iterations
    y1, t1 = 2.0 ** u["y"], 2.0 ** u["obj"]
    drv.same("number of iterations", len(it), len(ts))
    for k, s in enumerate(it):
        grow = 6 ** k if rtol0 > 1e-6 else 1
        rtol = max(rtol0, min(rtol0 * grow, 5e-3)) if grow > 1 else rtol0
        drv.same("number of iteration %d" % k, s.iteration, k)
        drv.close("parameters of iteration %d" % k, s.fitted_parameters / y1, ys[k + 1], rtol, max(rtol, 1e-7))
        drv.close("target of iteration %d" % k, s.target_function / t1, ts[k], max(rtol, 1e-6), max(ttol, min(ttol * grow, 0.05)))
    rtol = max(rtol0, 5e-3) if rtol0 > 1e-6 else rtol0
    drv.close("final estimate", model.fitted_admittance_matrix / y1, ys[len(ts)], rtol, max(rtol, 1e-7))
