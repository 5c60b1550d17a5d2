import numpy as np
import drv
from src.models.regression import ComplexRegression
from src.models.error_in_variable import TotalLeastSquares


def fits(c):
    X, Z, B = (drv.arr(c[k], drv.cint, 2) for k in ("X", "Z", "B"))
    u = c["u"]
    oz, ox = 2.0 ** np.array(c["out"], dtype=float), 2.0 ** np.array(c["in"], dtype=float)
    own = oz / ox[:, None]
    X, Z, B = X * 2.0 ** u["x"] * ox, Z * 2.0 ** u["z"] * oz, B * 2.0 ** u["y"] * own
    real = not (np.any(X.imag) or np.any(Z.imag))
    forms = [(X, Z)]
    if real:
        forms.append((X.real.copy(), Z.real.copy()))
    if Z.shape[1] == 1:
        forms += [(x, z[:, 0].copy()) for x, z in forms]
    scale = max(1.0, np.max(np.abs(Z)) / 2.0 ** u["z"])
    models = {"exact": (ComplexRegression, TotalLeastSquares), "small": (ComplexRegression, TotalLeastSquares),
              "ols": (ComplexRegression,), "tls": (TotalLeastSquares,),
              "less": (ComplexRegression,)}[c["kind"]]
    for cls in models:
        m = cls()
        # the accuracy of a joint decomposition is relative to the larger of its two parts
        apart = 2.0 ** abs(u["x"] - u["z"]) * np.max(own) / np.min(own) if cls is TotalLeastSquares else 1.0
        for x, z in forms:
            kx, kz = x.copy(), z.copy()
            if X.shape[0] % 2:                   # otherwise the same model is fitted again
                m = cls()
            m.fit(x, z)
            got = np.asarray(m.fitted_admittance_matrix)
            if c["kind"] == "less":
                res = x.conj().T @ (z - (x @ got.reshape(B.shape)).reshape(z.shape))
                size = np.max(np.abs(x)) * np.max(np.abs(z)) * len(x) + 1e-300
                drv.close("normal equations of dependent data", res / size, np.zeros(res.shape), 0, 1e-8)
                continue
            want = B
            drv.same("number of parameters", got.size, want.size)
            if got.ndim == 1 or want.shape[1] == 1:
                got = got.reshape(want.shape)
            drv.close("%s of %s data, %s output" % (cls.__name__, c["kind"], z.shape), got / 2.0 ** u["y"] / own, want / 2.0 ** u["y"] / own, 1e-7, (1e-11 + 1e-13 * apart) * scale + 1e-9)
            drv.close("inputs unchanged", x, kx, 0, 0)
            drv.close("outputs unchanged", z, kz, 0, 0)


drv.run(fits)
