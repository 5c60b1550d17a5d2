import numpy as np
import drv
from src.models import noise_transformation as nt

FN = {"naive": nt.naive_noise_covariance, "exact": nt.exact_noise_covariance, "average": nt.average_true_noise_covariance}


def case(c, unit=1.0):
    f = c["cf"]
    T, n = f["T"], f["n"]
    r = np.array([[drv.rat(q) for q in row] for row in f["r"]])
    d = np.array([[complex(drv.rat(q[0]), drv.rat(q[1])) for q in row] for row in f["d"]])
    meas = (r * d).reshape(T, n) * unit
    s = [drv.rat(q) * unit for q in f["s"]]
    sd_m = np.array(s) if f["each"] else float(s[0])
    tv = drv.rat(f["tv"])
    sd_p = float(np.sqrt(tv if f["kind"] == "naive" else np.log(tv)))
    cov = np.array([[drv.rat(q) for q in p] for p in c["cov"]])
    ok = np.all(cov[:, 0] * cov[:, 1] - cov[:, 2] ** 2 > 1e-6 * (1e-9 + cov[:, 0] * cov[:, 1])) and np.all(cov[:, :2] > 0)
    cov = cov * unit ** 2
    N = T * n
    want = np.zeros((2 * N, 2 * N))
    k = np.arange(N)
    want[k, k], want[k + N, k + N], want[k, k + N], want[k + N, k] = cov[:, 0], cov[:, 1], cov[:, 2], cov[:, 2]
    keep, km = meas.copy(), np.array(sd_m, copy=True)
    got = FN[f["kind"]](meas, sd_m, sd_p)
    drv.close("%s covariance" % f["kind"], got, want, 1e-9, 1e-12 * unit ** 2)
    drv.same("pattern", drv.dense(got)[want == 0].any() and np.abs(drv.dense(got)[want == 0]).max() > 1e-12 * unit ** 2, False)
    det = cov[:, 0] * cov[:, 1] - cov[:, 2] ** 2
    if f["inv"] and ok:
        got = FN[f["kind"]](meas, sd_m, sd_p, True) if n % 2 else FN[f["kind"]](meas, sd_m, sd_p, inverted=True)
        inv = np.zeros_like(want)
        inv[k, k], inv[k + N, k + N] = cov[:, 1] / det, cov[:, 0] / det
        inv[k, k + N] = inv[k + N, k] = -cov[:, 2] / det
        drv.close("%s inverse covariance" % f["kind"], got, inv, 1e-7, 1e-9 / unit ** 2)
        drv.close("%s inverse times covariance" % f["kind"], drv.dense(got) @ want, np.eye(2 * N), 1e-7, 1e-7)
    drv.close("measurements unchanged", meas, keep, 0, 0)
    drv.close("deviations unchanged", np.array(sd_m), km, 0, 0)
    if f["kind"] == "naive" and unit == 1:        # for small noise, the models agree
        e = 1e-4
        for kind in ("exact", "average"):
            drv.close("%s covariance of small noise" % kind, drv.dense(FN[kind](meas, e * np.array(sd_m) if f["each"] else e * sd_m, e * sd_p)) / e ** 2,
                      want, 1e-5, 1e-6)


def units(c):
    case(c)
    case(c, 2.0 ** (-20, 9, -6)[c["cf"]["T"] % 3])


drv.run(units)
