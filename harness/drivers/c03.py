import numpy as np
import scipy.sparse as sp
import drv
from src.models import matrix_operations as mo

ST = {"dense": np.array, "csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix}


def value(v, kind):
    return drv.arr(v, drv.cint, 2 if kind == "mat" else 1)


def tables(c):
    n = c["n"]
    D, T = np.array(c["D"]).reshape(n * n, -1), np.array(c["T"]).reshape(n * (n + 1) // 2, -1)
    E, L = np.array(c["E2"]).reshape(-1, n * n) / 2, np.array(c["EL"]).reshape(-1, n * (n + 1) // 2)
    gD, gT, gE, gL = (mo.duplication_matrix(n), mo.transformation_matrix(n), mo.elimination_sym_matrix(n),
                      mo.elimination_lap_matrix(n))
    drv.close("duplication matrix n=%d" % n, gD, D)
    drv.close("symmetric elimination matrix n=%d" % n, gE, E)
    if n > 1:
        drv.close("transformation matrix n=%d" % n, gT, T)
        drv.close("laplacian elimination matrix n=%d" % n, gL, L)
    else:
        drv.same("reduced sizes n=1", (gT.shape, gL.shape), ((1, 0), (0, 1)))
    # the operators act on data the way the laws say
    rng = np.random.RandomState(n)
    M = rng.randint(-9, 9, (n, n)) + 1j * rng.randint(-9, 9, (n, n))
    drv.close("symmetrization n=%d" % n, mo.unvectorize_matrix(gD @ gE @ mo.vectorize_matrix(M), (n, n)), (M + M.T) / 2)


def ops(c, unit=1.0, tol=0.0):
    x = value(c["start"], "mat") * unit
    for k, s in enumerate(c["hist"]):
        want = value(s["val"], s["kind"]) * unit
        op, arg = s["op"], s["arg"]
        before = x.copy()
        real = not np.any(x.imag)
        xin = x.real.copy() if real and k % 2 == 0 else x          # real data also as real arrays
        keep = xin.copy()
        if op == "vec":
            y = mo.vectorize_matrix(xin)
        elif op == "unvec":
            y = mo.unvectorize_matrix(xin, tuple(arg))
        elif op == "realvec":
            y = mo.make_real_vector(xin)
            drv.check("real vector has to be real", not np.iscomplexobj(y))
        elif op == "complexvec":
            y = mo.make_complex_vector(xin.real)
        elif op == "realmat":
            m = ST[arg](xin)
            y = mo.make_real_matrix(m)
            drv.check("real matrix has to be real", not np.iscomplexobj(drv.dense(y)))
            if arg != "dense":
                drv.same("storage format", y.format, m.format)
        elif op == "complexmat":
            y = mo.make_complex_matrix(ST[arg](xin.real))
        elif op in ("delrows", "delcols"):
            y = np.delete(xin, np.array(arg) - 1, axis=0 if op == "delrows" else 1)
        else:
            idx = np.array(arg) - 1
            idx = idx if k % 3 else idx[::-1]                       # any order of the indices
            y = mo.undelete(xin, idx, axis=1) if op == "undelcols" else \
                (mo.undelete(xin, idx) if k % 2 else mo.undelete(xin, idx, axis=0))
        drv.close("step %d %s" % (k, op), y, want, tol, 0)
        drv.close("argument of step %d %s" % (k, op), xin, keep, 0, 0)
        x = np.array(drv.dense(y), dtype=complex)


def units(c):
    """the operators are linear: any unit gives the same"""
    ops(c)
    ops(c, (np.pi, 1e-9, 1e12, 1e-300)[len(str(c["start"])) % 4])


drv.run(lambda c: tables(c) if c["t"] == "tables" else units(c))
