import os
import re
os.makedirs(os.path.join(os.environ["HOME"], ".config"), exist_ok=True)
from unittest.mock import MagicMock
import numpy as np
import drv
DATA = drv.scratch_data()
# drawing is replaced; what is drawn is saved by the report before
import seaborn, tikzplotlib
import matplotlib.pyplot as plt
seaborn.heatmap = MagicMock()
tikzplotlib.get_tikz_code = lambda *a, **k: ""
for f in ("figure", "subplots", "clf", "cla", "close", "legend", "subplots_adjust", "grid", "plot", "scatter", "savefig", "gca", "gcf"):
    setattr(plt, f, MagicMock())
# only the drawing functions that exist
import matplotlib.axes
figure = MagicMock()
figure.add_subplot = lambda *a, **k: MagicMock(spec=matplotlib.axes.Axes)
plt.figure = lambda *a, **k: figure
from click.testing import CliRunner
from src.models.abstract_models import IterationStatus
from src.identification import utils
import plot_results

OUT = DATA / "simulations_output"
A = complex(-0.5, np.sqrt(3) / 2)
TXT = {"o": "ols_error_metrics.txt", "t": "tls_error_metrics.txt", "l": "lasso_error_metrics.txt", "b": "sparse_tls_error_metrics.txt"}
PLOT = {"o": "y_ols", "t": "y_tls", "l": "y_lasso", "b": "y_sparse_tls_cov"}
HEAD = {"o": "OLS", "t": "TLS", "l": "Lasso", "b": "MLE"}
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def num(u):
    return drv.rat(u[0]) + drv.rat(u[1]) * A


def root(m):
    return np.sqrt(drv.arr(m, drv.rat, 2, float))


def parse(text):
    return {k: float(v) for k, v in re.findall(r"(\w+_error)\s*[=:]\s*(%s)" % NUM, text)}


def near(what, got, want):
    drv.close(what, np.array(got), np.array(want), 1e-9, 1e-9)


def expect(what, text, m, unit):
    got = parse(text)
    drv.same(what + ": metrics", set(got), {"fro_error", "max_error", "rrms_error", "map_error"})
    near(what + ": Frobenius error", got["fro_error"] / unit, np.sqrt(drv.rat(m["fro2"])))
    near(what + ": largest error", got["max_error"] / unit, np.sqrt(drv.rat(m["max2"])))
    near(what + ": relative error", got["rrms_error"], 100 * np.sqrt(drv.rat(m["rrms2"])))
    if m["mapped"]:
        near(what + ": error on lines", got["map_error"], 100 * np.sqrt(drv.rat(m["map2"])))


def plotted(name):
    p = OUT / "plot_data" / (name + ".npz")
    if not p.is_file():
        return None
    with np.load(p) as f:
        return f["m"]


def case(c):
    for d, pat in ((DATA, "*.txt"), (OUT, "*.npz"), (OUT / "plot_data", "*.npz")):
        for f in d.glob(pat):
            f.unlink()
    f, n = c["cf"], c["cf"]["n"]
    rng = np.random.RandomState(n)
    T = 2 * len(f["h"]) + 3
    unit = (1.0, 2.0 ** 14, 2.0 ** -9)[len(str(f["y"])) % 3]            # of the admittances
    Y = drv.arr(f["y"], num, 2) * unit
    name = "net%d" % n
    volts = 1 + 0.1 * (rng.randn(T, len(f["h"])) + 1j * rng.randn(T, len(f["h"])))
    np.savez(OUT / (name + ".npz"), w=volts, v=volts, i=volts, j=volts, h=np.array(f["h"]), y=np.eye(len(f["h"])), p=np.ones(len(f["h"])), f=3)
    np.savez(OUT / ("reference_results_" + name + ".npz"), y=Y, p=f["ph"], l=f["lap"])
    if "S" in f["present"]:
        np.savez(OUT / ("standard_results_" + name + ".npz"), **{k: drv.arr(f[k], num, 2) * unit for k in "otl"})
    if "B" in f["present"]:
        its = [IterationStatus(k, drv.arr(s["y"], num, 2) * unit, float(s["target"])) for k, s in enumerate(f["its"])]
        np.savez(OUT / ("bayesian_results_" + name + ".npz"), y=drv.arr(f["b"], num, 2) * unit, i=its)
    if "U" in f["present"]:
        a = rng.randn(2 * n * n, 2 * n * n)
        np.savez(OUT / ("uncertainty_results_" + name + ".npz"), e=a @ a.T, b=a @ a.T + np.eye(2 * n * n))
    before = {p.name: p.read_bytes() for p in OUT.glob("*.npz")}
    args = ["--network" if n % 2 else "-n", name] + (["-q"] if f["seq"] else []) + (["-v"] if f["verb"] else [])
    r = CliRunner().invoke(plot_results.plot_results, args)
    if isinstance(r.exception, drv.Timeout):
        raise r.exception
    what = "%s of %s%s" % (" ".join(args), f["ph"], " (laplacian)" if f["lap"] else "")
    drv.check("%s ended with %r" % (what, r.exception), r.exit_code == 0)
    drv.check("%s changed the saved results" % what, before == {p.name: p.read_bytes() for p in OUT.glob("*.npz")})
    drv.close("shown reference", plotted("y_bus") / unit, root(c["y"]), 1e-9, 1e-9)
    for k in "otlb":
        there = ("B" if k == "b" else "S") in f["present"]
        drv.same("%s exists" % TXT[k], (DATA / TXT[k]).is_file(), there)
        drv.same("%s shown" % PLOT[k], plotted(PLOT[k]) is not None, there)
        if there:
            expect(TXT[k], (DATA / TXT[k]).read_text(), c["metrics"][k], unit)
            drv.close("shown " + PLOT[k], plotted(PLOT[k]) / unit, root(c["e"][k]), 1e-9, 1e-9)
            own = (DATA / TXT[k]).read_text().strip()
            drv.check("metrics of %s are not printed" % HEAD[k], own in r.output)
    drv.same("sparsity_metrics.txt exists", (DATA / "sparsity_metrics.txt").is_file(), "B" in f["present"])
    if "B" in f["present"]:
        drv.close("shown errors", plotted("y_sparse_tls_cov_errors") / unit, root(c["eb"]), 1e-9, 1e-9)
        near("errors of the iterations", plotted("errors")[:, 0], [100 * np.sqrt(drv.rat(q)) for q in c["errors"]])
        near("targets of the iterations", plotted("targets")[:, 0], [s["target"] for s in f["its"][1:]])
        text = (DATA / "sparsity_metrics.txt").read_text()
        at = [re.search(r"^\s*%s\b" % HEAD[k], text, re.M) for k in "otlb"]
        drv.check("headings of sparsity_metrics.txt", all(at))
        at = [m.start() for m in at]
        for k, a in zip("otlb", at):
            end = min([b for b in at if b > a], default=len(text))
            got = parse(text[a:end])
            if c["clear"]:
                near("sparsity of %s: Frobenius error" % HEAD[k], got["fro_error"] / unit, np.sqrt(drv.rat(c["sparse"][k]["fro2"])))
                near("sparsity of %s: largest error" % HEAD[k], got["max_error"] / unit, np.sqrt(drv.rat(c["sparse"][k]["max2"])))
    # the plotting tools save what they are given, with or without labels
    m = np.abs(Y)
    for tool in (utils.plot_scatter, utils.plot_series):
        for labels in (None, ["l%d" % k for k in range(n)], ["too few"] * (n - 1)):
            tool(m, "tool", labels=labels)
            drv.close("data of %s" % tool.__name__, plotted("tool"), m, 0, 0)


drv.run(case)
