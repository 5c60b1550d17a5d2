import numpy as np
import drv
from src.models.bayesian_prior import BayesianPrior
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior


def args(op, k):
    """the documented argument forms: arrays, scalars or nothing"""
    v = np.array([drv.rat(q) for q in op["vals"]])
    idx = np.array(op["idx"]) if op["kind"] in ("contrast", "ratios") or k % 2 else list(op["idx"])
    w = {"none": None, "scalar": drv.rat(op["ws"][0]), "each": np.array([drv.rat(q) for q in op["ws"]])}[op["wf"]]
    o = {"default": None, "scalar": op["os"][0], "each": np.array(op["os"])}[op["of"]]
    if isinstance(w, float) and w == int(w) and k % 2:
        w = int(w)
    return idx, v, w, o


def add(p, op, k, orders=True, unit=1.0):
    """the belief, in other units of its value or weight"""
    idx, v, w, o = args(op, k)
    if unit != 1:
        if op["kind"] in ("sparsity", "ratios"):
            w = unit if w is None else w * unit
        else:
            v = v * unit
    kw = {}
    if w is not None and op["kind"] != "adaptive":
        kw["weights"] = w
    if o is not None and orders:
        kw["orders"] = o
    kd = op["kind"]
    keep = [np.array(idx, copy=True), v.copy(), None if w is None else np.array(w, copy=True)]
    if kd == "exact":
        p.add_exact_prior(idx, v, **kw)
    elif kd == "known":
        p.add_exact_adaptive_prior(idx, v, **kw)
    elif kd == "sparsity":
        p.add_sparsity_prior(idx, **kw)
    elif kd == "adaptive":
        p.add_adaptive_sparsity_prior(idx, v, **kw)
    elif kd == "contrast":
        p.add_contrast_prior(idx, v, **kw)
    else:
        p.add_ratios_prior(idx, v, **kw)
    drv.check("arguments of the addition changed", np.array_equal(keep[0], idx) and np.array_equal(keep[1], v)
              and (w is None or np.array_equal(keep[2], w)))


def rows(want, n, base):
    rel = np.array([drv.rat(r["rel"]) if base else 1. for r in want])
    L = np.array([[drv.rat(q) for q in r["coef"]] for r in want]).reshape(-1, n) * rel[:, None]
    return L, rel * np.array([drv.rat(r["mu"]) for r in want]), np.array([r["gam"] for r in want])


def in_units(c, cls, al, x):
    """beliefs about large and small quantities: every row scales with its own unit"""
    base, n = cls is BayesianPrior, c["n"]
    units = [2.0 ** ((7 * k + 5 * len(op.get("idx", []))) % 61 - 35) for k, op in enumerate(c["hist"])]
    p, q, sl, sm = [(cls(n) if base else cls(al, n)) for _ in (0, 1)] + [[], []]
    for k, (op, u) in enumerate(zip(c["hist"], units)):
        if op["kind"] != "copy":
            add(p, op, k, not base)
            add(q, op, k, not base, u)
            sl += [{"sparsity": u, "ratios": u, "adaptive": 1 / u, "contrast": 1 / u, "exact": 1, "known": 1 / u if base else 1}[op["kind"]]] * op["m"]
            sm += [u if op["kind"] in ("exact", "known") and not (base and op["kind"] == "known") else 1] * op["m"]
    sl, sm = np.array(sl).reshape(-1, 1), np.array(sm)
    L, M = drv.dense(p.L) * sl, p.mu * sm
    for k in range(len(L)):
        drv.close("%s in other units: L of belief %d" % (cls.__name__, k), drv.dense(q.L)[k], L[k], 1e-14, 0)
        drv.close("%s in other units: mu of belief %d" % (cls.__name__, k), q.mu[k], M[k], 1e-14, 0)
    if not base and len(L) and np.all(q.gamma == 2):
        A, b, _ = q.log_distribution(x)
        drv.close("%s in other units: quadratic term" % cls.__name__, A, L.T @ L / (1 + al), 1e-12, 0)
        drv.close("%s in other units: linear term" % cls.__name__, np.asarray(b).squeeze(), L.T @ M / (1 + al), 1e-12, 0)


def model(m, n):
    A = np.array([[sum(drv.rat(q) for q in t) for t in row] for row in m["A"]]).reshape(n, n)
    b = np.array([sum(drv.rat(q) for q in t) for t in m["b"]])
    return A, b


def case(c):
    n, al = c["n"], drv.rat(c["pt"]["al"])
    x = np.array([drv.rat(q) for q in c["pt"]["x"]])
    for cls in (BayesianPrior, SmoothPrior, SparseSmoothPrior):
        base = cls is BayesianPrior
        objs = [cls(n) if base else cls(al, n) if len(c["hist"]) % 2 else cls(smoothness_param=al, n=n)]
        for k, op in enumerate(c["hist"]):
            p = objs[op["obj"] - 1]
            if op["kind"] == "copy":
                objs.append(cls(n=n, other=p) if base else cls(smoothness_param=al, n=n, other=p))
            else:
                add(p, op, k, not base)
                if not base and len(c["hist"]) % 2 == 0:     # evaluating in between changes nothing later
                    p.log_distribution(x + k)
        drv.same("objects", len(objs), len(c["rows"]))
        for j, (p, want, m) in enumerate(zip(objs, c["rows"], c["model"])):
            what = "%s object %d " % (cls.__name__, j)
            L, mu, gam = rows(want, n, base)
            drv.close(what + "L", p.L, L)
            drv.close(what + "mu", p.mu, mu)
            if base:
                continue
            drv.close(what + "gamma", p.gamma, gam)
            A, b = model(m, n)
            for xin in (x, x[:, None]):
                keep = xin.copy()
                gA, gb, _ = p.log_distribution(xin)
                drv.close(what + "quadratic term", gA, A)
                drv.close(what + "linear term", np.asarray(gb).squeeze(), b.squeeze())
                drv.close(what + "evaluation point", xin, keep)
            drv.close(what + "L after evaluation", p.L, L)
            drv.close(what + "mu after evaluation", p.mu, mu)
        in_units(c, cls, al, x)
    return None


drv.run(case)
