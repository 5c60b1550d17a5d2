import contextlib, io
import numpy as np
import drv
from src.simulation import noise as ns


def resample(*a, **k):
    with contextlib.redirect_stderr(io.StringIO()):
        return ns.filter_and_resample_measurement(*a, **k)


def filt(c, unit=1.0, second=1.0):
    f = c["cf"]
    x = drv.arr(f["x"], drv.cint, 2) * unit
    old, new = np.array(f["old"], dtype=float) * second, np.array([drv.rat(q) for q in f["new"]]) * second
    sm, sp = np.array([drv.rat(q) for q in f["sm"]]) / unit, np.array([drv.rat(q) for q in f["sp"]]) * unit
    steps = len(new) // f["fp"]
    want = drv.arr(c["out"], drv.crat, 2).reshape(steps, x.shape[1]) * unit
    clean = drv.arr(c["clean"], drv.crat, 2).reshape(steps, x.shape[1]) * unit
    nf = lambda v, m, p: m * v * v + p
    kind = f["noise"]
    kw = {"none": dict(), "no_m": dict(noise_fcn=nf, std_p=0.5 * unit), "no_p": dict(noise_fcn=nf, std_m=0.5 / unit),
          "scalar": dict(noise_fcn=nf, std_m=float(sm[0]), std_p=float(sp[0])),
          "each": dict(noise_fcn=nf, std_m=sm, std_p=sp),
          "mixed": dict(noise_fcn=nf, std_m=float(sm[0]), std_p=list(sp))}[kind]
    keep = x.copy()
    v = len(new) % 2 == 1
    got = resample(x, old, new, f["fp"], verbose=v, **kw)
    drv.close("resampled with noise %s" % kind, got, want, 1e-9, 1e-9 * unit)
    drv.close("data unchanged", x, keep, 0, 0)
    # noise without deviations changes nothing
    got = resample(x, oldtimes=old, newtimes=new, fparam=f["fp"], std_m=0.0, std_p=np.zeros(x.shape[1]),
                   noise_fcn=ns.add_polar_noise_to_measurement, verbose=False)
    drv.close("resampled with zero deviations", got, clean, 1e-9, 1e-9 * unit)


def sd(each, v, force=False):
    v = np.array([drv.rat(q) for q in v])
    return v if each else float(v[0])


def draws(actual, noisy, m, p):
    """relative deviations of magnitude and phase in units of the given standard deviations"""
    dm = (np.abs(noisy) / np.abs(actual) - 1) / m
    dp = np.angle(noisy / actual) / np.angle(actual) / p
    return dm, dp


def noise(c):
    f = c["cf"]
    a, b = drv.arr(f["a"], drv.cint, 2), drv.arr(f["b"], drv.cint, 2)
    ma, mb, pa, pb = (sd(f["each"], f[k]) for k in ("ma", "mb", "pa", "pb"))
    if a.shape[1] == 1 and f["each"]:
        ma, mb, pa, pb = (float(q[0]) for q in (ma, mb, pa, pb))
    keep = a.copy()
    out = []
    for data, m, p in ((a, ma, pa), (b, mb, pb), (a, ma, pa)):
        np.random.seed(f["seed"])
        out.append(ns.add_polar_noise_to_measurement(data, m, p))
    drv.close("same seed, same noise", out[2], out[0], 0, 0)
    drv.close("data unchanged", a, keep)
    d0, d1 = draws(a, out[0], ma, pa), draws(b, out[1], mb, pb)
    drv.close("relative magnitude deviations", d1[0], d0[0], 1e-5, 1e-6)
    drv.close("relative phase deviations", d1[1], d0[1], 1e-5, 1e-5)
    drv.check("the noise is null", np.all(d0[0] != 0) and np.all(d0[1] != 0))
    np.random.seed(f["seed"])
    only_m = ns.add_polar_noise_to_measurement(a, ma, 0.0)
    drv.close("phases without phase noise", np.angle(only_m), np.angle(a), 0, 1e-9)
    only_p = ns.add_polar_noise_to_measurement(a, 0.0, pa)
    drv.close("magnitudes without magnitude noise", np.abs(only_p), np.abs(a), 1e-12, 0)
    np.random.seed(f["seed"])
    nv, nc = ns.add_noise_in_polar_coordinates(a, b, ma if np.size(ma) == 1 else float(ma[0]), 0.0)
    drv.close("wrapper: voltage phases", np.angle(nv), np.angle(b), 0, 1e-9)
    drv.close("wrapper: current phases", np.angle(nc), np.angle(a), 0, 1e-9)
    # cartesian noise
    ra, ia = float(drv.rat(f["ma"][0])), float(drv.rat(f["mb"][0]))
    rsd, isd = np.array([drv.rat(q) for q in c["rsd"]]), np.array([drv.rat(q) for q in c["isd"]])
    res = []
    for k in (1.0, 2.0):
        np.random.seed(f["seed"])
        n, gr, gi = ns.add_cartesian_noise_to_measurement(a, k * ra, k * ia)
        drv.close("real deviation", gr, k * rsd, 1e-12, 0)
        drv.close("imaginary deviation", gi, k * isd, 1e-12, 0)
        res.append(n - a)
    drv.close("cartesian noise is linear in the accuracy", res[1], 2 * res[0], 1e-6, 1e-9)
    drv.check("series without real part get real noise", np.all(res[0].real[:, rsd == 0] == 0))
    np.random.seed(f["seed"])
    nv, nc = ns.add_noise_in_cartesian_coordinates(a, b, 0.0, 0.3)
    drv.close("wrapper: current", nc, a)
    drv.check("wrapper: voltage noise", np.any(nv != b) and nv.shape == b.shape)


def stats(c):
    """the draws are independent standard normal deviations for every sample and series"""
    T, n = 4000, 3
    np.random.seed(c["seed"])
    a = np.tile(np.array([[3 + 4j, -2 + 1j, 1 - 1j]]), (T, 1))
    m, p = np.array([0.01, 0.02, 0.001]), np.array([1e-4, 1e-3, 1e-2])
    for mm, pp in ((m, p), (0.01, 1e-3)):
        dm, dp = draws(a, ns.add_polar_noise_to_measurement(a, mm, pp), mm, pp)
        d = np.hstack((dm, dp))
        drv.close("mean", d.mean(axis=0), np.zeros(6), 0, 0.1)
        drv.close("covariance of the draws", np.cov(d.T), np.eye(6), 0, 0.12)
    n_, rs, is_ = ns.add_cartesian_noise_to_measurement(a, 0.3, 0.6)
    d = np.hstack(((n_ - a).real / rs, (n_ - a).imag / is_))
    drv.close("mean", d.mean(axis=0), np.zeros(6), 0, 0.1)
    drv.close("covariance of the draws", np.cov(d.T), np.eye(6), 0, 0.12)
    r = ns.filter_and_resample_measurement(a, np.arange(T), np.arange(T), 4, m, p, ns.add_polar_noise_to_measurement)
    dm, dp = draws(a[:T // 4], r, m, p)
    drv.close("averaging four samples halves the deviation", np.hstack((dm, dp)).std(axis=0), 0.5 * np.ones(6), 0, 0.06)


def units(c):
    """in any unit of the measurements and of time"""
    filt(c)
    k = len(c["cf"]["old"]) % 3
    filt(c, 2.0 ** (-12, 7, -3)[k], 2.0 ** (5, -9, 12)[k])


drv.run(lambda c: {"filter": units, "noise": noise, "stats": stats}[c["mode"]](c))
