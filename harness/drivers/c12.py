import numpy as np
import drv
DATA = drv.scratch_data()
from conf import conf, simulation
from src.simulation.load_profile import BusData, load_profile_from_numpy, load_profile_from_csv
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph


UNITS = (1.0, 2.0 ** -3, 2.0 ** -7, 2.0 ** 4)                        # of the loads and nominal powers


def counts(what, series, prof, want):
    """the household counts behind a series: nonnegative integers with the right total"""
    prof = np.asarray(prof, dtype=float)
    s = np.asarray(series) * 1e6
    c, _, rank, _ = np.linalg.lstsq(prof, s, rcond=None)
    if rank == prof.shape[1]:
        r = np.round(c)
        drv.close(what + " is a sum of households", prof @ r, s, 1e-7, 1e-7 * np.max(np.abs(prof)))
        drv.check("%s: negative number of households %s" % (what, r), np.all(r >= 0))
        drv.same(what + ": number of households", int(r.sum()), want)
        return r
    drv.close(what + " is a sum of households", prof @ c, s, 1e-7, 1e-6 * np.max(np.abs(prof)))
    if want == 0:
        drv.close(what + " without households", s, 0 * s, 0, 1e-9)
    return None


def files(case):
    c, big = case["cf"], case["mode"] == "big"
    unit = UNITS[c["seed"] % 4]
    P, Q = np.array(c["p"], dtype=np.float64) * unit, np.array(c["q"], dtype=np.float64) * unit
    rows = np.array(case["rows"]) - 1
    ph = len(c["due"][0])
    np.save(DATA / "p.npy", P)
    np.save(DATA / "q.npy", Q)
    for m, f in ((P, "p.csv"), (Q, "q.csv")):
        with open(DATA / f, "w") as o:
            o.writelines(";".join(repr(x) for x in r) + "\n" for r in m)
    nom = [[{k: unit * drv.rat(z[k]) / 1e6 for k in "pq"} for z in node] for node in case["nom"]]
    col = lambda k, f: np.array([n[f][k] for n in nom])
    refs = [col("p", 0), col("q", 0)] + ([col("p", 1), col("q", 1), col("p", 2), col("q", 2)] if ph == 3 else [])
    keep = [r.copy() for r in refs]
    skip = np.array(c["skip"])
    np.random.seed(c["seed"])
    a = load_profile_from_numpy(str(DATA / "p.npy"), DATA / "q.npy", skip, np.array(c["len"]), *refs)
    np.random.seed(c["seed"])
    foot = P.shape[0] - c["len"] - skip
    b = load_profile_from_csv(DATA / "p.csv", str(DATA / "q.csv"), skip, foot, *refs)
    for x, y in zip(refs, keep):
        drv.close("nominal loads unchanged", x, y, 0, 0)
    drv.same("number of profiles", len(a), 2 * ph)
    order = [("p", f) for f in range(ph)] + [("q", f) for f in range(ph)]
    seen = {}
    for x, y, (k, f) in zip(a, b, order):
        drv.close("text and binary profiles", y, x, 1e-10, 1e-14)
        drv.same("shape", x.shape, (len(rows), len(nom)))
        prof = (P if k == "p" else Q)[rows]
        for i in range(len(nom)):
            r = counts("load %s of node %d, phase %d" % (k, i, f), x[:, i], prof, c["due"][i][f][k])
            if r is not None:
                seen.setdefault(k, []).append(r)
    if big:
        for k, rs in seen.items():
            tot = sum(rs)
            if tot.sum() > 300:
                drv.check("every household is drawn: %s" % tot, np.all(tot > 0))
            ex = [tuple(r) for r in rs if r.sum() > 100 and len(r) >= 4]
            drv.check("nodes and phases have their own households", len(set(ex)) == len(ex))
        if "p" in seen and "q" in seen:
            pass


def build(c, nom):
    ph = len(nom[0])
    bus, sym, asym = [], [], []
    for i in range(len(nom)):
        p, q = [z["p"] for z in nom[i]], [z["q"] for z in nom[i]]
        if i + 1 == c["pcc"]:
            bus.append(BusData(c["ids"][i], 3, 5.0, 4.0))
            sym.append(i)
        elif ph == 3 and i + 1 not in c["sym"]:
            bus.append(BusData(c["ids"][i], 1, tuple(p), tuple(q)))
            asym.append(i)
        else:
            bus.append(BusData(c["ids"][i], 1, p[0], q[0]))
            sym.append(i)
    net = SimulatedNet3P({}, bus, []) if ph == 3 else SimulatedNet(bus, [])
    if c["seed"] % 3 == 0:                   # loads numbered on their own, and not like their nodes
        for t in (net.load, net.asymmetric_load):
            t.index = [(5 * k + 2) % 43 for k in range(len(t))]
    net.name = "tiny_loads"
    return net, sym, asym


def flat(out, ph):
    """series by (kind, node list, phase)"""
    if ph == 1:
        p, q, t = out
        return [p], [q], None, None, t
    p, q, a, t = out
    drv.same("asymmetric profiles", len(a), 6)
    return [p], [q], [a[0], a[1], a[2]], [a[3], a[4], a[5]], t


def blended(base, nomv, const, a, nodes):
    """what blending the constant nodes makes of the other loads"""
    w = base.copy()
    for j, i in enumerate(nodes):
        if i + 1 in const:
            w[:, j] = (1 - a) * base[:, j] + a * nomv[j]
    return w


def stage(case):
    c = case["cf"]
    gauss = case["mode"] == "gauss"
    unit = UNITS[c["seed"] % 4]
    nom = [[{k: unit * drv.rat(z[k]) / 1e6 for k in "pq"} for z in node] for node in case["nom"]]
    ph = len(nom[0])
    net, sym, asym = build(c, nom)
    m = run3ph if ph == 3 else run
    a = drv.rat(c["a"])
    simulation.load_constantness = a
    conf.seed = c["seed"]
    const = [] if c["noconst"] else c["const"]
    ids = [c["ids"][i - 1] for i in const]
    if gauss:
        pars = lambda ids, sd: (None, None, sd, c["days"], ids)
    else:
        H = len(c["lp"][0])
        rng = np.random.RandomState(c["seed"])
        prof = []
        for l in (c["lp"], c["lq"]):
            x = np.repeat(np.array(l, dtype=float), 7 * 1440, axis=0)
            for d in range(21):
                x[d * 1440:d * 1440 + 2 * H + 2] = rng.randint(-15, 15, (2 * H + 2, H))      # rows telling minutes and households apart
                x[d * 1440 + 1439] = rng.randint(-15, 15, H)
            prof.append(x * unit)
        np.save(DATA / "sp.npy", prof[0])
        np.save(DATA / "sq.npy", prof[1])
        rows = np.concatenate([np.arange(s, s + l) for s, l in case["windows"]])
        pars = lambda ids, sd: (DATA / "sp.npy", DATA / "sq.npy", np.array(c["weeks"]), c["days"], ids)
    gen = lambda ids, sd=drv.rat(c["sd"]): m.generate_loads(net, pars(ids, sd), verbose=False)
    np.random.seed(1)
    out = gen(list(ids))
    d = dict(np.load(DATA / "simulations_output" / "sim_loads_tiny_loads.npz"))
    np.random.seed(2)
    plain = gen(None)
    T = c["days"] * 1440
    drv.close("time stamps", out[-1], 60 * np.arange(T), 0, 0)
    got, base = flat(out, ph), flat(plain, ph)
    # the loads of that run were saved as returned
    for k, x in zip("pqat" if ph == 3 else "pqt", out):
        drv.close("saved '%s'" % k, d[k], np.array(x), 0, 0)
    for which, nodes, off in ((0, sym, "p"), (1, sym, "q"), (2, asym, "p"), (3, asym, "q")):
        if got[which] is None:
            continue
        for f in range(len(got[which])):
            x, y = got[which][f], base[which][f]
            nv = np.array([nom[i][f][off] for i in nodes])
            drv.same("shape of the loads", x.shape, (T, len(nodes)))
            drv.close("%s with constant nodes, phase %d" % (off, f), x, blended(y, nv, const, a, nodes), 1e-9, 1e-13)
            for j, i in enumerate(nodes):
                s = y[:, j]
                if gauss:
                    sd = drv.rat(c["sd"]) * nv[j]
                    e = s - nv[j]
                    drv.check("mean of %s of node %d" % (off, i), abs(e.mean()) <= 6 * sd / np.sqrt(T) + 1e-15)
                    drv.check("deviation of %s of node %d: %g instead of %g" % (off, i, e.std(), sd), abs(e.std() - sd) <= 0.15 * sd + 1e-15)
                else:
                    counts("%s of node %d, phase %d" % (off, i, f), s, prof[0 if off == "p" else 1][rows], c["due"][i][f][off])
    if gauss:
        twice = flat(gen(None, 2 * drv.rat(c["sd"])), ph)
        cols = []
        for which, nodes, off in ((0, sym, "p"), (1, sym, "q"), (2, asym, "p"), (3, asym, "q")):
            for f in range(len(base[which] or [])):
                nv = np.array([nom[i][f][off] for i in nodes])
                drv.close("deviations double with the requested one", twice[which][f] - nv, 2 * (base[which][f] - nv), 1e-8, 1e-12)
                cols += [((base[which][f] - nv)[:, j] / nv[j]) for j in range(len(nodes)) if nv[j] > 0]
        if len(cols) > 1:
            r = np.corrcoef(np.array(cols))
            drv.check("loads are independent", np.max(np.abs(r - np.eye(len(cols)))) < 0.25)
    again = gen(None)
    for k, x, y in zip("pqat", again, plain if not gauss else again):
        drv.close("same seed, same loads", np.array(x), np.array(y), 0, 0)
    # saved as returned, and read back whatever network state
    loaded = m.generate_loads(net, None, verbose=False)
    for x, y in zip(loaded, again):
        drv.close("reloaded loads", np.array(x), np.array(y), 0, 0)


drv.run(lambda c: files(c) if c["mode"] in ("file", "big") else stage(c))
