import json, re
import numpy as np
import drv
DATA = drv.scratch_data()
import conf.conf, conf.simulation, conf.identification
from conf import identification
from click.testing import CliRunner
from src.identification import run
import identify_network

OUT = DATA / "simulations_output"
FILES = {"R": "reference_results_", "S": "standard_results_", "B": "bayesian_results_", "U": "uncertainty_results_"}
LABELS = {"s0": [1] * 3, "s1": [1] * 3, "s2": [1] * 2, "x0": [1] * 29, "p0": [1, 2, 3, 1, 3, 2, 1], "p1": [2, 1, 2, 1, 2],
          "q0": [0, 1, 2, 1, 0, 1, 2], "q1": [2, 1, 0, 0, 1, 2]}


def measure(name):
    h = np.array(LABELS[name])
    n, rng = len(h), np.random.RandomState(sum(map(ord, name)))
    T = n + 9
    y = np.zeros((n, n), dtype=complex)
    for a in range(n):
        for b in range(a):
            if h[a] == h[b] and (rng.rand() < 0.7 if n < 20 else a == b + 1):
                y[a, b] = y[b, a] = -rng.uniform(1, 3) + 1j * rng.uniform(2, 5)
    y -= np.diag(y.sum(axis=0) + 0.1 * rng.rand(n))
    w = 1 + 0.03 * rng.randn(T, n) + 0.02j * rng.randn(T, n)
    j = w @ y
    d = {"i": j + 1e-3 * (rng.randn(T, n) + 1j * rng.randn(T, n)), "v": w + 3e-4 * (rng.randn(T, n) + 1j * rng.randn(T, n)),
         "j": j, "w": w, "y": y, "p": rng.uniform(0.5, 2, n), "h": h, "f": np.array(rng.randint(2, 40))}
    return d


MEAS = {}


def data(name):
    if name not in MEAS:
        MEAS[name] = measure(name)
    return MEAS[name]


SD = ("voltage_magnitude_sd", "current_magnitude_sd", "voltage_phase_sd", "current_phase_sd")


def configure(c):
    i, s = identification, conf.simulation
    i.lambda_lasso = (1e-3, 4e-2)[c.get("ll", 0)]
    i.lambda_eiv = (1e-4, 3e-3)[c.get("le", 0)]
    i.lambdaprime = (20, 3)[c.get("lp", 0)]
    i.abs_tol, i.rel_tol = ((1e-13, 1e-16), (1e-2, 0.3))[c.get("tol", 0)]
    i.use_tls_diag, i.contrast_each_row, i.regularize_diag = ((False, True, False), (True, True, False), (False, True, True))[c.get("reg", 0)]
    for k, name in enumerate(SD):
        setattr(s, name, (2e-3, 1e-2, 1e-3, 3e-3)[k] * (1 + k) ** c.get("sd", 0))


def snapshot():
    out = {}
    for m in (conf.conf, conf.simulation, conf.identification):
        for k, v in vars(m).items():
            if not k.startswith("__") and not callable(v) and type(v).__name__ != "module":
                out[m.__name__ + "." + k] = repr(v)
    return out


def load(path):
    if not path.is_file():
        return None
    with np.load(path, allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


# ---------------------------------------------------------------- what the origins of the specification stand for
VALUES = {}


def value(t):
    key = json.dumps(t, sort_keys=True)
    if key not in VALUES:
        VALUES[key] = {"R": reference, "S": standard, "B": bayesian, "U": uncertainty}[t["k"]](t)
    return VALUES[key]


def groups(t):
    """columns that are identified together, within the columns of the phases identified"""
    h = np.array(LABELS[t["data"]])
    if t["ph"] == "012":
        return [np.where(h == k)[0] for k in range(3)]
    if t["ph"] == "123":
        return [np.arange(len(h))]
    return [np.where(h == int(t["ph"]))[0]]


def columns(t):
    return np.sort(np.concatenate(groups(t)))


def reference(t):
    k = columns(t)
    return {"y": data(t["data"])["y"][np.ix_(k, k)], "p": t["ph"], "l": t["lap"]}


def assemble(t, parts):
    k = columns(t)
    y = np.zeros((len(k), len(k)), dtype=complex)
    for g, p in zip(groups(t), parts):
        at = np.searchsorted(k, g)
        y[np.ix_(at, at)] = p
    return y


def standard(t):
    configure(t)
    d = data(t["data"])
    parts = [run.standard_methods("ref", d["v"][:, g].copy(), d["i"][:, g].copy(), None, t["lap"], t["its"], False) for g in groups(t)]
    return {k: assemble(t, [p[n] for p in parts]) for n, k in enumerate("otl")}


def deviations(f):
    s = conf.simulation
    return ((s.voltage_magnitude_sd + 1j * s.voltage_phase_sd) / np.sqrt(f), (s.current_magnitude_sd + 1j * s.current_phase_sd) / np.sqrt(f))


def bayesian(t):
    old = value(t["from"])
    init = (old["t"] + old["t"].T) / 2 if t["from"]["k"] == "S" else old["y"]
    configure(t)
    d, k = data(t["data"]), columns(t)
    vsd, csd = deviations(d["f"])
    parts = []
    for g in groups(t):
        at = np.searchsorted(k, g)
        y, its = run.bayesian_eiv("ref", d["v"][:, g].copy(), d["i"][:, g].copy(), None, vsd, csd, d["p"][g],
                                  init[np.ix_(at, at)].copy(), d["y"][np.ix_(g, g)].copy() if t["known"] else None, t["lap"],
                                  t["weights"] != "none", t["its"], t["weights"] != "unsynchronized", False)
        parts.append((y, its))
    its = [(n, assemble(t, [p[1][n].fitted_parameters for p in parts]), sum(p[1][n].target_function for p in parts))
           for n in range(min(len(p[1]) for p in parts))]
    return {"y": assemble(t, [p[0] for p in parts]), "i": (old["i"] if t["after"] else []) + its}


def uncertainty(t):
    est = value(t["est"])["y"]
    configure(t)
    d, k = data(t["data"]), columns(t)
    vsd, csd = deviations(d["f"])
    out = {}
    for key, v, i, y in (("e", "w", "j", d["y"][np.ix_(k, k)]), ("b", "v", "i", est)):
        fim, out[key], out["err_" + key] = run.eiv_fim("ref", d[v][:, k].copy(), d[i][:, k].copy(), vsd, csd, d["p"][k], y.copy(), None, t["lap"], False)
    return out


# ---------------------------------------------------------------- comparison
def equal(what, got, want, rtol):
    got, want = np.asarray(got), np.asarray(want)
    drv.check("%s: shape %s instead of %s" % (what, got.shape, want.shape), got.shape == want.shape)
    scale = np.nanmax(np.abs(want)) if want.size and np.any(np.isfinite(want)) else 0.0
    drv.check("%s is not what its origin gives" % what, np.allclose(got, want, rtol, rtol * scale, equal_nan=True))


def against(what, stage, term, net):
    got = load(OUT / (FILES[stage] + net + ".npz"))
    if term["k"] == "none":
        drv.check("%s: saved although nothing was to be" % what, got is None)
        return
    drv.check("%s: nothing saved" % what, got is not None)
    want = value(term)
    rtol = 1e-6 if term["ph"] in ("123", "012") else 1e-9
    if stage == "R":
        equal(what + " y", got["y"], want["y"], 0)
        drv.same(what + " phases", str(got["p"]), want["p"])
        drv.same(what + " laplacian", bool(got["l"]), want["l"])
    elif stage == "B":
        equal(what + " estimate", got["y"], want["y"], rtol)
        drv.same(what + " number of iterations", len(got["i"]), len(want["i"]))
        for g, (n, y, target) in zip(got["i"], want["i"]):
            drv.same(what + " number of an iteration", g.iteration, n)
            equal(what + " iteration %d" % n, g.fitted_parameters, y, rtol)
            equal(what + " target %d" % n, g.target_function, target, rtol)
    else:
        for k in ("otl" if stage == "S" else "eb"):
            equal(what + " " + k, got[k], want[k], rtol)


def quiet(f, *a):
    import contextlib, io
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


FLAGS = {"s": "-s", "b": "-b", "c": "-c", "e": "-e", "l": "-l", "w": "-w", "u": "-u", "r": "-r", "v": "-v"}
LONG = {"s": "--standard", "b": "--bayesian-eiv", "c": "--continue-id", "e": "--exact", "l": "--laplacian", "w": "--weighted",
        "u": "--uncertainty", "r": "--unsynchronized", "v": "--verbose"}


def case(c):
    for f in OUT.glob("*.npz"):
        f.unlink()
    names = {n: "net_" + n for n in c["nets"]}
    present, left = {}, {n: {s: {"k": "none"} for s in FILES} for n in c["nets"]}
    for n, st in enumerate(c["cmds"]):
        cmd, net = st["cmd"], st["cmd"]["net"]
        if st["data"] != "none" and present.get(net) != st["data"]:
            np.savez(OUT / (names[net] + ".npz"), **data(st["data"]))
            present[net] = st["data"]
        left[net] = st["saved"]
        for s in FILES:                                     # before the run, so that nothing of its own is used
            if st["saved"][s]["k"] != "none":
                quiet(value, st["saved"][s])
        for f in OUT.glob("*_ref.npz"):
            f.unlink()
        configure(st["conf"])
        before = snapshot()
        files = {f.name: f.read_bytes() for f in OUT.glob("*.npz")}
        np.random.seed(1000 + n)
        args = ["--network", names[net], "--phases" if n % 2 else "-p", cmd["ph"], "--max-iterations" if n % 3 else "-i", str(cmd["its"])]
        args += [(LONG if n % 2 else FLAGS)[f] for f in sorted(cmd["flags"])] + (["--sequence" if n % 3 else "-q"] if cmd["seq"] else [])
        what = "command %d (%s on %s)" % (n, " ".join(args), st["data"])
        r = CliRunner().invoke(identify_network.identify, args)
        if isinstance(r.exception, drv.Timeout):
            raise r.exception
        if st["how"] == "done":
            drv.check("%s ended with %r" % (what, r.exception), r.exit_code == 0)
        else:
            drv.check("%s went through although it cannot" % what, r.exit_code != 0)
        drv.same("configuration after " + what, {k: v for k, v in snapshot().items() if k in before}, before)
        for name, old in files.items():
            if not name.endswith(names[net] + ".npz") or name == names[net] + ".npz":
                drv.check("%s changed %s" % (what, name), (OUT / name).is_file() and (OUT / name).read_bytes() == old)
        for s in FILES:
            against("%s: %s" % (what, FILES[s]), s, left[net][s], names[net])
        extra = {f.name for f in OUT.glob("*.npz")} - set(files) - {p + names[net] + ".npz" for p in list(FILES.values()) + ["fim_results_"]}
        drv.check("%s wrote %s" % (what, extra), not extra)
        if st["how"] == "done" and {"u"} <= set(cmd["flags"]) and "r" not in cmd["flags"] and cmd["ph"] not in ("012", "123"):
            w = value(st["saved"]["U"])
            shown = [float(x) for x in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", r.output)]
            for k in "eb":
                e = 100 * w["err_" + k]
                drv.check("%s does not show the bound %s" % (what, e), any(np.isclose(e, x, 1e-6, equal_nan=True) for x in shown))


drv.run(case)
