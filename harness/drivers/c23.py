import shutil
import numpy as np
import drv
DATA = drv.scratch_data()
import conf.conf, conf.simulation
from click.testing import CliRunner
from src.simulation import net_templates, net_templates_3ph
from src.simulation.lines import LineData
from src.simulation.load_profile import BusData
import simulate_network, identify_network

OUT = DATA / "simulations_output"
A = np.exp(2j * np.pi / 3)
S2P = np.array([[1, 1, 1], [1, A ** 2, A], [1, A, A ** 2]])
KVS = [4.16, 1.0, 20.0]


def run(cmd, args, what):
    r = CliRunner().invoke(cmd, args)
    if isinstance(r.exception, drv.Timeout):
        raise r.exception
    drv.check("%s ends normally%s" % (what, "" if r.exit_code == 0 else ", not with %r" % r.exception), r.exit_code == 0)
    return r.exit_code == 0


def volt(m):
    """T x n voltages n / p in units of the base"""
    return np.array([[drv.cint(x["n"]) / drv.cint(x["p"]) for x in row] for row in m])


def out(o, scale):
    return drv.arr(o["m"], drv.cint, 2) / drv.cint(o["p"]) / scale


def clean():
    for d in OUT.glob("sim_2*"):
        shutil.rmtree(str(d))
    for f in OUT.glob("*.npz"):
        f.unlink()


def configure(c, T, hidden):
    s = conf.simulation
    for k in ("voltage_magnitude_sd", "current_magnitude_sd", "voltage_phase_sd", "current_phase_sd"):
        setattr(s, k, 0.0)
    s.hidden_nodes = hidden
    s.constant_load_hidden_nodes = False
    s.safety_factor = 4
    s.measurement_frequency = c["fpts"] / 60
    s.time_steps = (T - 1) * c["fpts"] // c["fp"]


def solution(name, v, i, yr, lap):
    """the unregularized estimates, as far as the data determines them"""
    c = v - (np.mean(v) if lap else np.mean(v, axis=0))
    cond = np.linalg.cond(c)
    if cond > 3e3:
        return 0
    tol = 1e-6 * cond
    with np.load(OUT / ("standard_results_" + name + ".npz")) as r:
        big = np.max(np.abs(yr))
        drv.close("ordinary least squares estimate", r["o"], yr, tol * big, tol)
        drv.close("total least squares estimate", r["t"], yr, 10 * tol * big, 10 * tol)
    return 1


def single(case):
    c = case["cf"]
    unit = (1.0, 30.0, 0.1)[len(str(case["v"])) % 3]
    kv = KVS[len(str(c)) % 3]
    y = drv.arr(c["y"][0], drv.cint, 2) * unit
    v = volt(case["v"][0]) / case["base"]
    yr = out(case["out"][0], case["scale"]) * unit
    T, n = v.shape
    i = v @ y
    s = -v * np.conj(i)
    bus, lines, cols = [], [], []
    for k in range(n):
        t, x = 1, c["nominal"][k] * 1e-2 * unit
        if k + 1 == c["pcc"]:
            t = 3
        elif k + 1 in c["elim"] and k + 1 not in c["hidden"]:
            t, x = (2, 0) if k + 1 in c["unloaded"] else (1, 0)
        if t != 2:
            cols.append(k)
        bus.append(BusData(c["ids"][k], t, 5 if t == 3 else x, 5 if t == 3 else x / 2, kv=kv))
    for a in range(n):
        for b in range(a):
            if y[a, b] != 0:
                z = -kv * kv / y[a, b]
                lines.append(LineData(c["ids"][a], c["ids"][b], 1, r=z.real, x=z.imag))
    net_templates.tiny_bus, net_templates.tiny_net = bus, lines
    clean()
    configure(c, T, [c["ids"][h - 1] for h in c["hidden"]])
    p, q = s[:, cols].real.copy(), s[:, cols].imag.copy()
    p[:, cols.index(c["pcc"] - 1)] = q[:, cols.index(c["pcc"] - 1)] = 0
    np.savez(OUT / "sim_loads_tiny.npz", p=p, q=q, t=60 * np.arange(T))
    if not run(simulate_network.simulate, ["-n", "tiny", "-s", "-d"] + ["-e"] * c["equiv"] + ["-l"] * c["lap"], "simulation"):
        return 0
    kept = [k - 1 for k in case["kept"]]
    with np.load(OUT / "tiny.npz") as d:
        drv.check("measured nodes", d["v"].shape[1:] == (len(kept),) and d["y"].shape == (len(kept),) * 2)
        drv.close("reduced admittance", d["y"], yr, 1e-6 * unit, 1e-6)
        w, j = d["w"].copy(), d["j"].copy()
        drv.close("noiseless measurements, voltages", d["v"], w, 1e-9, 1e-9)
        drv.close("noiseless measurements, currents", d["i"], j, 1e-9 * unit, 1e-9)
        lo, hi = v[:, kept].real.min(axis=0), v[:, kept].real.max(axis=0)
        drv.check("voltages within those simulated", np.all(w.real > lo - 1e-6) and np.all(w.real < hi + 1e-6))
        if c["lap"]:
            drv.close("currents from the reduced network", w @ yr, j, 1e-5 * unit, 1e-5)
        else:
            drv.close("changes of currents from the reduced network", (w - w.mean(axis=0)) @ yr, j - j.mean(axis=0), 1e-5 * unit, 1e-5)
    np.savez(OUT / "bayesian_results_tiny.npz", y=yr, i=np.array([]))
    if not run(identify_network.identify, ["-n", "tiny", "-s", "-i", str(c["its"])] + ["-l"] * c["lap"], "identification"):
        return 0
    return solution("tiny", w, j, yr, c["lap"])


def three(case):
    c = case["cf"]
    kv = KVS[len(str(c)) % 3]
    ys = [drv.arr(m, drv.cint, 2) for m in c["y"]]
    vs = [volt(m) / case["base"] for m in case["v"]]
    T, n = vs[0].shape
    phase = lambda seq: np.stack(seq, axis=-1) @ S2P.T                # T x n x 3
    v, i = phase(vs), phase([x @ y for x, y in zip(vs, ys)])
    s = -v * np.conj(i)
    bus, lcol, acol, types, lines = [], [], [], net_templates_3ph.ieee123_types, []
    for t in [t for t in types if t.startswith("tiny")]:
        del types[t]
    for k in range(n):
        x = c["nominal"][k] * 1e-2
        if k + 1 == c["pcc"]:
            lcol.append(k)
            bus.append(BusData(c["ids"][k], 3, 5.0, 5.0, kv=kv))
        elif k + 1 in c["elim"] and k + 1 not in c["hidden"] and k + 1 in c["unloaded"]:
            bus.append(BusData(c["ids"][k], 2, 0.0, 0.0, kv=kv))
        else:
            acol.append(k)
            x = 0.0 if k + 1 in c["elim"] and k + 1 not in c["hidden"] else x
            bus.append(BusData(c["ids"][k], 1, (x, 2 * x, x), (x / 2, x, x), kv=kv))
    for a in range(n):
        for b in range(a):
            if ys[1][a, b] != 0:
                z0, z1 = [kv * kv / 3 / -m[a, b] for m in (ys[0], ys[1])]
                types["tiny%d_%d" % (a, b)] = dict(r_ohm_per_km=z1.real, x_ohm_per_km=z1.imag, c_nf_per_km=0, max_i_ka=1e4,
                                                   c0_nf_per_km=0, r0_ohm_per_km=z0.real, x0_ohm_per_km=z0.imag)
                lines.append(LineData(c["ids"][a], c["ids"][b], 1, "tiny%d_%d" % (a, b)))
    net_templates_3ph.tiny3_bus, net_templates_3ph.tiny3_net = bus, lines
    clean()
    configure(c, T, [c["ids"][h - 1] for h in c["hidden"]])
    tot = s.sum(axis=2)
    p, q = tot[:, lcol].real.copy(), tot[:, lcol].imag.copy()
    p[:], q[:] = 0, 0
    asym = np.array([s[:, acol, ph].real for ph in range(3)] + [s[:, acol, ph].imag for ph in range(3)])
    np.savez(OUT / "sim_loads_tiny3.npz", p=p, q=q, a=asym, t=60 * np.arange(T))
    if not run(simulate_network.simulate, ["-n", "tiny3", "-s", "-d", "-t"] + ["-e"] * c["equiv"] + ["-q"] * c["inseq"], "three-phase simulation"):
        return 0
    kept = [k - 1 for k in case["kept"]]
    m = len(kept)
    yr = sum(np.kron(out(case["out"][k], case["scale"]), np.diag(np.eye(3)[k])) for k in range(3))
    if not c["inseq"]:
        yr = np.kron(np.eye(m), S2P) @ yr @ np.kron(np.eye(m), np.linalg.inv(S2P))
    with np.load(OUT / "tiny3.npz") as d:
        drv.check("measured nodes", d["v"].shape[1:] == (3 * m,) and d["y"].shape == (3 * m,) * 2)
        drv.same("phases or sequences", list(d["h"]), ([0, 1, 2] if c["inseq"] else [1, 2, 3]) * m)
        drv.close("reduced admittance", d["y"], yr, 1e-5, 1e-5)
        w, j = d["w"].copy(), d["j"].copy()
        drv.close("noiseless measurements, voltages", d["v"], w, 1e-9, 1e-9)
        drv.close("noiseless measurements, currents", d["i"], j, 1e-9, 1e-9)
        drv.close("changes of currents from the reduced network", (w - w.mean(axis=0)) @ (yr if c["inseq"] else yr.T), j - j.mean(axis=0), 3e-4, 3e-4)
    if not c["inseq"]:
        return 0
    np.savez(OUT / "bayesian_results_tiny3.npz", y=yr, i=np.array([]))
    if not run(identify_network.identify, ["-n", "tiny3", "-s", "-i", str(c["its"]), "-p", "012", "-q"], "three-phase identification"):
        return 0
    conds = [np.linalg.cond(w[:, k::3] - w[:, k::3].mean(axis=0)) for k in range(3)]
    with np.load(OUT / "standard_results_tiny3.npz") as r:
        for k, cond in enumerate(conds):
            if cond < 100:
                want = yr[k::3, k::3]
                drv.close("estimate of sequence %d" % k, r["o"][k::3, k::3], want, 1e-3 * cond, 1e-3 * cond)
                drv.close("total least squares estimate of sequence %d" % k, r["t"][k::3, k::3], want, 1e-3 * cond, 1e-3 * cond)
        off = np.kron(np.ones((m, m)), np.eye(3)) == 0
        drv.close("estimates between sequences", r["o"][off], 0 * r["o"][off], 0, 0)
    return int(max(conds) < 100)


drv.run(lambda c: single(c) if c["mode"] == "single" else three(c))
