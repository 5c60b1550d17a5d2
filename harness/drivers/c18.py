"""Reads the built-in networks, and the admittance matrices made from them, as data for the specification."""
import numpy as np
import drv
drv.scratch_data()
from src.simulation import net_templates, net_templates_3ph, run, run3ph
from src.simulation.net_templates_3ph import ieee123_types
from src.simulation.lines import admittance_phase_to_sequence

s9 = lambda x: ["%.9e" % v for v in np.atleast_1d(np.asarray(x, dtype=float))]


def laplacian(y, what, pcc=None):
    y = np.asarray(y).copy()
    scale = np.abs(y).max()
    if not np.all(np.isfinite(y)):
        return what + "not finite"
    if np.abs(y - y.T).max() > 1e-6 * scale:
        return what + "not symmetric"
    rows = np.abs(y.sum(axis=1))
    if pcc is not None:
        rows[pcc] = 0          # the grid connection adds its own short-circuit admittance
    if rows.max() > 1e-6 * scale:
        return what + "rows do not sum to zero"
    n = y.shape[0]
    off = y - np.diag(np.diag(y))
    if off.real.max() > 1e-9 * scale or np.diag(y).real.min() <= 0:
        return what + "weights not positive"
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in np.nonzero(np.abs(off[i]) > 1e-9 * scale)[0]:
            if j not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return "" if len(seen) == n else what + "not connected"


def expected(bus, lines, n):
    """weights of the lines in service"""
    idx = {b.id: k for k, b in enumerate(bus)}
    y = np.zeros((n, n), dtype=complex)
    for l in lines:
        if l.status > 0:
            a, b = idx[l.start_bus], idx[l.end_bus]
            w = bus[a].baseKV ** 2 / (l.R + 1j * l.X)
            y[a, a] += w
            y[b, b] += w
            y[a, b] -= w
            y[b, a] -= w
    return y


def judge(three, name, bus, lines):
    try:
        net, b, l = (run3ph if three else run).make_net(name)
        y = np.asarray(net.make_y_bus())
        if net.bus.index.tolist() != [x.id for x in bus]:
            return "buses in another order"
        if not three:
            if np.abs(y - expected(bus, lines, len(bus))).max() > 1e-6 * np.abs(y).max():
                return "not that of the lines"
            return laplacian(y, "")
        s = np.asarray(admittance_phase_to_sequence(y))
        pcc = [k for k, x in enumerate(bus) if x.type == 3]
        return "".join(laplacian(s[k::3, k::3], "sequence %d " % k, pcc) for k in range(3))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def again(three, name, bus, lines):
    """a second time gives the same network: making one does not use the template up"""
    text = [repr(vars(x)) for x in list(bus) + list(lines)]
    a, b = (np.asarray((run3ph if three else run).make_net(name)[0].make_y_bus()) for _ in range(2))
    if a.shape != b.shape or np.abs(a - b).max() > 1e-9 * np.abs(a).max():
        return "another one when it is made again"
    if text != [repr(vars(x)) for x in list(bus) + list(lines)]:
        return "making it changes the template"
    return ""


def case(c):
    nets, subs = [], []
    todo = []
    for m, three in ((net_templates, False), (net_templates_3ph, True)):
        todo += [(m, three, k[:-4]) for k in sorted(dir(m)) if k.endswith("_bus") and hasattr(m, k[:-4] + "_net")]
    for m, three, name in todo[c["part"]::c["of"]]:
        bus, lines = getattr(m, name + "_bus"), getattr(m, name + "_net")
        e = {"name": name, "buses": [], "lines": []}
        for b in bus:
            e["buses"].append({"id": int(b.id), "type": int(b.type), "kv": s9(b.baseKV)[0], "kvpos": int(b.baseKV > 0),
                               "p": s9(b.Pd), "q": s9(b.Qd)})
        for l in lines:
            if three:
                t = ieee123_types.get(l.t)
                pos = int(t is not None and all(t[k] >= 0 for k in ("r_ohm_per_km", "x_ohm_per_km", "r0_ohm_per_km", "x0_ohm_per_km"))
                          and t["r_ohm_per_km"] + t["x_ohm_per_km"] > 0 and t["r0_ohm_per_km"] + t["x0_ohm_per_km"] > 0)
                if t is None:
                    pos = int(l.t is None and l.R > 0)
            else:
                pos = int(l.R >= 0 and l.X >= 0 and l.R + l.X > 0)
            e["lines"].append({"f": int(l.start_bus), "t": int(l.end_bus), "len": s9(l.length)[0], "lenpos": int(l.length > 0),
                               "zpos": pos, "on": int(l.status > 0), "rs": s9(l.R)[0], "xs": s9(l.X)[0]})
        e["weighted"] = judge(three, name, bus, lines) or again(three, name, bus, lines)
        nets.append(e)
    if c["part"] == 0:
        for part, m in (("bolognani33", net_templates.bolognani_mapping33), ("bolognani21", net_templates.bolognani_mapping21)):
            subs.append({"part": part, "whole": "bolognani56", "map": [[int(a), int(b)] for a, b in m.items()]})
    return {"nets": nets, "subs": subs}


drv.run(case)
