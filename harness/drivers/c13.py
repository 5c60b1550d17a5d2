import numpy as np
import pandapower as pp
import drv
drv.scratch_data()
from src.simulation.load_profile import BusData
from src.simulation.lines import LineData
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P

A = np.exp(2j * np.pi / 3)
S2P = np.array([[1, 1, 1], [1, A ** 2, A], [1, A, A ** 2]])
P2S = np.linalg.inv(S2P)
KVS = [4.16, 1.0, 20.0, 0.4]
P, Q = 1e-5, 2e-5


def tname(w):
    return "T%d_%d_%d_%d" % (w[0][0], -w[0][1], w[1][0], -w[1][1])


def busdata(b, three, kv):
    p, q = [min(unit, 1.0) * P * x for x in b["p"]], [min(unit, 1.0) * Q * x for x in b["q"]]
    if b["kind"] == 3:
        return BusData(b["id"], 3, 5.0, 4.0, kv=kv)
    if three and not (len(set(b["p"])) == 1 and len(set(b["q"])) == 1 and b["id"] % 2):
        return BusData(b["id"], b["kind"], tuple(p), tuple(q), kv=kv)
    return BusData(b["id"], b["kind"], p[0], q[0], kv=kv)


UNITS = [1.0, 1e-3, 40.0, 1e4, 1e-8]   # of the admittances
BASES = [1, 10, 0.1]                   # of the powers
unit = 1.0


def types(case, kv):
    ts = {}
    for h in case["hist"]:
        for l in h["e"].get("new", []):
            if "w" in l and len(l["w"]) == 2:
                z0, z1 = [kv * kv / complex(*x) / 3 / unit for x in l["w"]]     # per unit of a phase
                ts[tname(l["w"])] = dict(r_ohm_per_km=z1.real, x_ohm_per_km=z1.imag, c_nf_per_km=0, c0_nf_per_km=0,
                                         max_i_ka=1e4, r0_ohm_per_km=z0.real, x0_ohm_per_km=z0.imag)
    return ts


def check_ybus(net, want, three):
    y = np.asarray(net.make_y_bus()) / unit
    if not three:
        w = drv.arr(want[0], drv.crat, 2)
        drv.close("admittance matrix", y, w, 1e-6, 1e-6)
        drv.close("symmetric", y, y.T, 1e-9, 1e-9)
        return
    n = y.shape[0] // 3
    s = np.kron(np.eye(n), P2S) @ y @ np.kron(np.eye(n), S2P)
    w = [drv.arr(want[k], drv.crat, 2) for k in (0, 1, 1)]
    # the grid connection adds its own short-circuit admittance in the zero and negative sequence
    pcc = [net.bus.index.tolist().index(b) for b in net.ext_grid.bus.values]
    for k in range(3):
        for j in range(3):
            blk = s[k::3, j::3]
            if j != k:
                drv.close("coupling of sequences %d and %d" % (k, j), blk, 0 * w[0], 1e-6, 1e-5)
                continue
            if k != 1:
                for q in pcc:
                    blk[q, q] = w[k][q, q]
            drv.close("admittance of sequence %d" % k, blk, w[k], 1e-6, 1e-6)


def case(c):
    global unit
    three = c["three"]
    turn = len(str(c))
    unit = UNITS[0 if three else turn // 24 % len(UNITS)]
    kv = KVS[turn % len(KVS)]
    area = {}                                # of the buses; every area has its own voltage
    kvof = lambda i: KVS[(turn + area[i] - 1) % len(KVS)]
    base = 1 if three else BASES[turn // 4 % len(BASES)]
    relabel = turn // 12 % 2                 # loads have numbers of their own, which need not be those of their buses
    net = NetData3P(types(c, kv)) if three else NetData()
    net.sn_mva = base
    idx = {}
    first = True
    for h in c["hist"]:
        e, after = h["e"], h["after"]
        op = e["op"]
        if "create_bus" in op:
            area.update({b["id"]: b["g"] for b in e["new"]})
            new = [busdata(b, three, kvof(b["id"])) for b in e["new"]]
            if op == "create_bus":
                b = new[0]
                net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV)
            elif first:
                # the constructor does the same
                net = NetData3P(types(c, kv), new) if three else NetData(new)
                net.sn_mva = base
            else:
                net.create_buses(new)
            if relabel:
                for t in (net.load, net.asymmetric_load):
                    t.index = [31 + k for k in range(len(t))][::-1]
        elif op.startswith("create_line"):
            before = set(net.line.index)
            if op == "create_lines_from_ybus":
                y = drv.arr(e["y"], drv.cint, 2) * unit
                ky = y.copy()
                net.create_lines_from_ybus(y)
                drv.close("given admittance unchanged", y, ky, 0, 0)
            elif op == "create_line":
                l = e["new"][0]
                if three:
                    net.create_line(l["f"], l["t"], l["len"], tname(l["w"]))
                else:
                    z = kvof(l["f"]) ** 2 / complex(*l["w"][0]) / unit / base
                    (net.create_line(l["f"], l["t"], z.real, z.imag) if l["h"] % 2 else
                     net.create_line(l["f"], l["t"], z.real, z.imag, 0.25 * l["h"]))
            else:
                ls = []
                for l in e["new"]:
                    z = kvof(l["f"]) ** 2 / complex(*l["w"][0]) / unit / base
                    ls.append(LineData(l["f"], l["t"], l["len"], tname(l["w"]), s=int(l["on"])) if three else
                              LineData(l["f"], l["t"], 1 if l["h"] % 2 else 0.5 * l["h"], None, z.real, z.imag, s=int(l["on"])))
                net.create_lines(ls)
            fresh = [k for k in net.line.index if k not in before]
            for l in e["new"]:
                m = [k for k in fresh if {net.line.from_bus[k], net.line.to_bus[k]} == {l["f"], l["t"]}]
                if op == "create_lines" and not l["on"]:
                    drv.same("line out of service", m, [])
                else:
                    drv.same("lines between %s and %s" % (l["f"], l["t"]), len(m), 1)
                    idx[l["h"]] = m[0]
        elif op == "remove_line":
            net.remove_line(idx[e["hs"][0]])
        elif op == "remove_lines":
            net.remove_lines([idx[k] for k in e["hs"]])
        elif op == "remove_bus":
            net.remove_bus(e["ids"][0])
        elif op == "remove_buses":
            net.remove_buses(e["ids"])
        elif op == "add_load":
            p, q = [min(unit, 1.0) * P * x for x in e["p"]], [min(unit, 1.0) * Q * x for x in e["q"]]
            if three and not (len(set(e["p"])) == 1 and len(set(e["q"])) == 1 and len(net.line) % 2):
                pp.create_asymmetric_load(net, e["id"], *p, *q, index=100 + max(net.asymmetric_load.index, default=0))
            else:
                pp.create_load(net, e["id"], p[0], q[0], index=100 + max(net.load.index, default=0))
        else:
            check_ybus(net, e["y"], three)
        first = False
        drv.same("buses after " + op, net.bus.index.tolist(), after["ids"])
        drv.same("number of lines after " + op, len(net.line), after["nl"])
        drv.same("grid connections after " + op, sorted(net.ext_grid.bus.values.tolist()), sorted(after["pcc"]))
        pas = net.give_passive_nodes()
        drv.same("passive nodes after " + op, [sorted(x) for x in pas], [sorted(x) for x in after["passive"]])
    last = c["hist"][-1]
    if last["after"]["conn"] and not three:
        copy = NetData(other=net)
        drv.close("admittance of a copy", np.asarray(copy.make_y_bus()), np.asarray(net.make_y_bus()), 1e-9, 1e-9)
        copy.remove_bus(int(copy.bus.index[0]))
        drv.same("original after editing the copy", net.bus.index.tolist(), last["after"]["ids"])


drv.run(case)
