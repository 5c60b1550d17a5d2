import random
import numpy as np
import drv
drv.scratch_data()
from src.simulation.net_templates import BusData
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph

A = np.exp(2j * np.pi / 3)
S2P = np.array([[1, 1, 1], [1, A ** 2, A], [1, A, A ** 2]])
P2S = np.linalg.inv(S2P)
gm = lambda m: drv.arr(m, drv.cint, 2) if m else np.zeros((0, 0), complex)


def out(o):
    return gm(o["m"]) / complex(*o["p"])


class Given(SimulatedNet):
    def __init__(self, y):
        SimulatedNet.__init__(self, [], [])
        object.__setattr__(self, "given", y)

    def make_y_bus(self):
        return object.__getattribute__(self, "given").copy()


class Given3(SimulatedNet3P):
    def make_y_bus(self):
        return object.__getattribute__(self, "given").copy()


STUB = SimulatedNet([], [])


def scaled(m, e):
    d = 2.0 ** np.array(e)
    return m * np.outer(d, d)


def close(what, got, want, e, rtol):
    """compared in the units the specification computes in"""
    drv.close(what, scaled(np.asarray(got), [-x for x in e]) if np.shape(got) == (len(e), len(e)) else got, want, rtol, rtol)


def matrix(c):
    unit(c, [0] * len(c["y"]))
    if any(c["sc"]):
        unit(c, c["sc"])


def unit(c, sc):
    y = scaled(gm(c["y"]), sc)
    es = [e - 1 for e in c["es"]]
    left = [sc[k] for k in range(len(sc)) if k not in es]
    want = scaled(out(c["out"]), left) if left else out(c["out"])
    keep = y.copy()
    forms = [es, sorted(es), np.array(es, dtype=int), es[::-1], np.array(es, dtype=float), [np.int64(e) for e in es]]
    for k, f in enumerate(forms):
        got = STUB.kron_reduction(f, y)
        close("kron_reduction", got, out(c["out"]), left, 1e-7 if any(sc) else 1e-9)
    drv.close("the given matrix is unchanged", y, keep, 0, 0)
    if any(sc):
        return
    drv.close("kron_reduction of np.matrix", np.asarray(STUB.kron_reduction(es, np.matrix(y))), want, 1e-9, 1e-9)
    if np.all(y.imag == 0):
        drv.close("kron_reduction of reals", STUB.kron_reduction(es, y.real), want, 1e-9, 1e-9)
    if len(es) > 1:
        # one after the other and in two groups
        for cut in range(1, len(es)):
            first = es[:cut]
            if np.abs(np.linalg.det(y[np.ix_(first, first)])) < 0.5:      # (a Gaussian integer)
                continue                          # the first group alone cannot be removed
            lab = list(range(y.shape[0]))
            z = y
            for part in (es[:cut], es[cut:]):
                z = STUB.kron_reduction([lab.index(e) for e in part], z)
                lab = [q for q in lab if q not in part]
            drv.close("grouped kron_reduction", z, want, 1e-8, 1e-8)
    drv.close("default admittance matrix", Given(y).kron_reduction(es), want, 1e-9, 1e-9)


def data(c, per, sc=None):
    u, dv, di, s = [drv.arr(c[k], drv.cint, 1) for k in ("u", "dv", "di", "shunt")]
    if sc is not None:
        s = s * 4.0 ** np.array(sc)
    if per == 3:
        u, dv, di, s = [np.repeat(x, 3) for x in (u, dv, di, s)]
    mi = s * u                      # mean current
    v = np.array([u + dv, u - dv, u])
    i = np.array([mi + di, mi, mi - di])
    return v, i


def net(case):
    c = case["cf"]
    y, n = gm(c["y"]), len(c["y"])
    ids = c["ids"]
    bus = []
    for k in range(n):
        if k + 1 in c["pcc"]:
            bus.append(BusData(ids[k], SimulatedNet.TYPE_PCC, 0, 0, 4.16))
        else:
            p = k + 1 in c["passive"]
            # a load can be purely active or reactive
            bus.append(BusData(ids[k], SimulatedNet.TYPE_LOAD, 0 if p or k % 3 == 1 else 1e-3, 0 if p or k % 3 == 0 else 2e-3, 4.16))
    if "given" in c:                         # no physical lines
        net = Given(None)
        net.create_buses(bus)
        object.__setattr__(net, "given", y)
    else:
        net = SimulatedNet(bus, [])
        net.create_lines_from_ybus(y)
    if c["lap"] and len(c["hidden"]) % 2:    # loads with numbers of their own
        net.load.index = [40 + k for k in range(len(net.load))][::-1]
    reduce(net, case, None)
    if any(c["sc"]):
        net2 = Given(None)
        net2.create_buses(bus)
        object.__setattr__(net2, "given", scaled(y, c["sc"]))
        reduce(net2, case, c["sc"])


def reduce(net, case, sc):
    c = case["cf"]
    ids = c["ids"]
    v, i = data(c, 1, sc)
    hidden = [ids[h - 1] for h in c["hidden"]]
    random.Random(1).shuffle(hidden)
    given = list(hidden)
    kv, ki = v.copy(), i.copy()
    if c["lap"] or len(hidden) % 2:
        todel, yr = run.reduce_network(net, v, i, hidden, c["lap"], verbose=False)
    else:                                       # by default, the grid connection is removed
        todel, yr = run.reduce_network(net, v, i, hidden)
    drv.same("removed measurement columns", sorted(int(k) + 1 for k in set(todel)), case["todel"])
    left = [sc[k - 1] if sc else 0 for k in case["left"]]
    close("reduced admittance", yr, out(case["out"]), left, 1e-5 if sc else 1e-6)
    drv.same("hidden nodes unchanged", hidden, given)
    drv.close("voltages unchanged", v, kv, 0, 0)
    drv.close("currents unchanged", i, ki, 0, 0)


def net3(c, y):
    ids, n = c["ids"], len(c["ids"])
    bus = []
    for k in range(n):
        pas = [k + 1 in c["pas"][ph] for ph in range(3)]
        if k + 1 in c["pcc"]:
            bus.append(BusData(ids[k], SimulatedNet.TYPE_PCC, 0, 0, 4.16))
        elif len(set(pas)) == 1 and k % 2:
            bus.append(BusData(ids[k], SimulatedNet.TYPE_LOAD, 0 if pas[0] else 1e-3, 0, 4.16))
        else:
            bus.append(BusData(ids[k], SimulatedNet.TYPE_LOAD, [0 if q or k % 3 == 1 else 1e-3 for q in pas],
                               [0 if q or k % 3 == 0 else 1e-3 for q in pas], 4.16))
    net = Given3({}, bus, [])
    if len(c["hidden"]) % 2:                 # loads with numbers of their own
        for t in (net.load, net.asymmetric_load):
            t.index = [40 + k for k in range(len(t))][::-1]
    object.__setattr__(net, "given", y)
    return net


def three(case):
    three_in(case, [0] * len(case["cf"]["sc"]))
    if any(case["cf"]["sc"]):
        three_in(case, case["cf"]["sc"])


def three_in(case, sc):
    c = case["cf"]
    single = case["mode"] == "phase"
    if single:
        y = scaled(gm(c["y"]), sc)
    else:
        ys = [scaled(gm(q), sc) for q in c["ys"]]
        seq = sum(np.kron(ys[s], np.diag(np.eye(3)[s])) for s in range(3))
        n = len(ys[0])
        y = np.kron(np.eye(n), S2P) @ seq @ np.kron(np.eye(n), P2S)
    net = net3(c, y)
    v, i = data(c, 1 if single else 3, sc)
    left = [sc[k - 1] for k in case["left"]]
    tol = 1e-5 if any(sc) else 1e-8
    hidden = [c["ids"][h - 1] for h in c["hidden"]]
    given, kv, ki = list(hidden), v.copy(), i.copy()
    todel, yr = run3ph.reduce_network(net, v, i, hidden, False, single, False)
    drv.same("removed measurement columns", sorted(int(k) + 1 for k in set(todel)), case["todel"])
    yr = np.asarray(yr)
    if single:
        close("reduced admittance", yr, out(case["out"]), left, tol)
    else:
        m = len(case["out"][0]["m"])
        got = np.kron(np.eye(m), P2S) @ yr @ np.kron(np.eye(m), S2P)
        want = sum(np.kron(out(case["out"][s]), np.diag(np.eye(3)[s])) for s in range(3))
        close("reduced sequence admittance", got, want, list(np.repeat(left, 3)), tol)
    drv.same("hidden nodes unchanged", hidden, given)
    drv.close("voltages unchanged", v, kv, 0, 0)
    drv.close("currents unchanged", i, ki, 0, 0)


def case(c):
    {"matrix": matrix, "net": net, "phase": three, "node": three}[c["mode"]](c)


drv.run(case)
