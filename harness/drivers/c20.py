import shutil
import numpy as np
import drv
DATA = drv.scratch_data()
from src.simulation.load_profile import BusData
from src.simulation.lines import LineData
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph

A = np.exp(2j * np.pi / 3)
S2P = np.array([[1, 1, 1], [1, A ** 2, A], [1, A, A ** 2]])
KVS = [4.16, 1.0, 20.0]
TABLES = ["bus", "line", "load", "asymmetric_load", "ext_grid", "controller"]


def clean():
    for d in (DATA / "simulations_output").glob("sim_2*"):
        shutil.rmtree(str(d))


def snap(net):
    return {t: net[t].copy() for t in TABLES}


def relabel(net, k):
    """the loads of a network have numbers of their own, which need not be those of their nodes"""
    if k % 3 == 0:
        for t in (net.load, net.asymmetric_load):
            t.index = [7 + 3 * j for j in range(len(t))][::1 if k % 2 else -1]
    return net


def unchanged(net, before):
    for t in TABLES:
        a, b = net[t], before[t]
        drv.check("the network's %s is unchanged" % t, list(a.index) == list(b.index) and list(a.columns) == list(b.columns)
                  and a.astype(str).equals(b.astype(str)))


def saved(name, what, v, i, y):
    d = np.load(DATA / "simulations_output" / ("sim_results_" + name + ".npz"))
    drv.close("saved voltages", d["v"], v, 0, 0)
    drv.close("saved currents", d["i"], i, 0, 0)
    drv.close("saved admittance", d["y"], y, 0, 0)


def single(case):
    c = case["cf"]
    unit = (1.0, 30.0, 0.1)[len(str(c["v"])) % 3]                        # of powers and admittances
    kv = KVS[len(str(c)) % 3]
    y = drv.arr(c["y"][0], drv.cint, 2) * unit
    v = drv.arr(c["v"][0], drv.cint, 2) / 100
    i = drv.arr(case["i"][0], drv.cint, 2) / 100 * unit
    s = drv.arr(case["s"], drv.cint, 2) / 1e4 * unit
    n, T = len(c["ids"]), v.shape[0]
    bus, cols = [], []
    for k in range(n):
        t = 3 if k + 1 == c["pcc"] else 2 if k + 1 in c["gen"] else 1
        if t != 2:
            cols.append(k)
        x = c["nominal"][k] * 1e-2 * unit
        bus.append(BusData(c["ids"][k], t, 5 if t == 3 else x, 5 if t == 3 else x / 2, kv=kv))
    net = SimulatedNet(bus, [])
    net.create_lines_from_ybus(y)
    relabel(net, len(str(c)))
    net.name = "tiny"
    sl = s.copy()
    sl[:, c["pcc"] - 1] = 0.01 * np.arange(T) if n % 2 else 0     # the grid connection may have a load of its own
    p, q = sl[:, cols].real.copy(), sl[:, cols].imag.copy()
    kp, kq, before = p.copy(), q.copy(), snap(net)
    clean()
    rv, ri, ry = run.simulate_net(net, p, q, verbose=False)
    drv.close("admittance", np.asarray(ry), y, 1e-7, 1e-7)
    drv.close("voltages", rv, v, 1e-6, 1e-6)
    drv.close("currents", ri, i, 1e-5, 1e-5)
    drv.close("currents are voltages times admittance", ri, np.asarray(rv) @ np.asarray(ry), 1e-9, 1e-9)
    drv.close("given active loads unchanged", p, kp, 0, 0)
    drv.close("given reactive loads unchanged", q, kq, 0, 0)
    unchanged(net, before)
    saved("tiny", "single", rv, ri, np.asarray(ry))
    a = run.simulate_net(net, None, None, verbose=False)
    for x, z, w in zip(a, (rv, ri, ry), ("voltages", "currents", "admittance")):
        drv.close("reloaded " + w, x, np.asarray(z), 0, 0)
    # with the same network and the loads in another order of time
    if T > 1 and n <= 3:
        o = np.roll(np.arange(T), 1)
        clean()
        rv, ri, ry = run.simulate_net(net, p[o], q[o], verbose=False)
        drv.close("voltages of a second simulation", rv, v[o], 1e-6, 1e-6)


def three(case):
    c = case["cf"]
    kv = KVS[len(str(c)) % 3]
    n, T = len(c["ids"]), len(c["v"][0])
    ys = [drv.arr(m, drv.cint, 2) for m in c["y"]]
    phase = lambda seq: np.stack([drv.arr(m, drv.cint, 2) / 100 for m in seq], axis=-1).reshape(T, n, 3) @ S2P.T
    v, i = phase(c["v"]), phase(case["i"])
    s = -v * np.conj(i)                                            # T x n x 3
    bus, lcol, acol, types, lines = [], [], [], {}, []
    for k in range(n):
        x = c["nominal"][k] * 1e-2
        if k + 1 == c["pcc"]:
            lcol.append(k)
            bus.append(BusData(c["ids"][k], 3, 5.0, 5.0, kv=kv))
        elif k + 1 in c["gen"]:
            bus.append(BusData(c["ids"][k], 2, 0.0, 0.0, kv=kv))
        elif case["mode"] == "balanced" and k + 1 in c["sym"]:
            lcol.append(k)
            bus.append(BusData(c["ids"][k], 1, x, x / 2, kv=kv))
        else:
            acol.append(k)
            bus.append(BusData(c["ids"][k], 1, (x, 2 * x, 0), (x / 2, 0, x), kv=kv))
    for a in range(n):
        for b in range(a):
            if ys[1][a, b] != 0:
                z0, z1 = [kv * kv / 3 / -m[a, b] for m in (ys[0], ys[1])]
                types["t%d_%d" % (a, b)] = dict(r_ohm_per_km=z1.real, x_ohm_per_km=z1.imag, c_nf_per_km=0, max_i_ka=1e4,
                                                c0_nf_per_km=0, r0_ohm_per_km=z0.real, x0_ohm_per_km=z0.imag)
                lines.append(LineData(c["ids"][a], c["ids"][b], 1, "t%d_%d" % (a, b)))
    net = SimulatedNet3P(types, bus, lines)
    relabel(net, len(str(c)))
    net.name = "tiny3"
    tot = s.sum(axis=2)
    p, q = tot[:, lcol].real.copy(), tot[:, lcol].imag.copy()
    col = lcol.index(c["pcc"] - 1)
    p[:, col], q[:, col] = 0, 0
    asym = [s[:, acol, ph].real.copy() for ph in range(3)] + [s[:, acol, ph].imag.copy() for ph in range(3)]
    asym = np.array(asym)
    ka, kp, before = asym.copy(), p.copy(), snap(net)
    clean()
    rv, ri, ry = run3ph.simulate_net(net, p, q, asym, verbose=False)
    rv, ri, ry = np.asarray(rv), np.asarray(ri), np.asarray(ry)
    fv, fi = v.reshape(T, 3 * n), i.reshape(T, 3 * n)
    drv.close("voltages", rv, fv, 2e-5, 2e-5)
    drv.close("currents are voltages times admittance", ri, rv @ ry, 1e-9, 1e-9)
    keep = [e for e in range(3 * n) if e // 3 + 1 != c["pcc"]]
    drv.close("loads drawn", (rv * np.conj(ri))[:, keep], -s.reshape(T, 3 * n)[:, keep], 1e-5, 1e-5)
    drv.close("currents", ri[:, keep], fi[:, keep], 1e-4, 1e-4)
    # the grid connection balances the total, in every phase
    yl = sum(np.kron(ys[k], np.diag(np.eye(3)[k])) for k in range(3))
    yl = np.kron(np.eye(n), S2P) @ yl @ np.kron(np.eye(n), np.linalg.inv(S2P))
    drv.close("total current", (rv @ yl).reshape(T, n, 3).sum(axis=1), np.zeros((T, 3)), 1e-6, 1e-6)
    drv.close("admittance", ry[np.ix_(keep, keep)], yl[np.ix_(keep, keep)], 1e-6, 1e-6)
    drv.close("given asymmetric loads unchanged", asym, ka, 0, 0)
    drv.close("given loads unchanged", p, kp, 0, 0)
    unchanged(net, before)
    saved("tiny3", "three", rv, ri, ry)
    a = run3ph.simulate_net(net, None, None, None, verbose=False)
    for x, z, w in zip(a, (rv, ri, ry), ("voltages", "currents", "admittance")):
        drv.close("reloaded " + w, x, z, 0, 0)


drv.run(lambda c: single(c) if c["mode"] == "single" else three(c))
