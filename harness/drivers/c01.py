import os
from fractions import Fraction
from pathlib import Path
import numpy as np
import drv
DATA = drv.scratch_data()
import conf.conf, conf.simulation, conf.identification
from click.testing import CliRunner
from src.simulation import net_templates, net_templates_3ph
from src.simulation.load_profile import BusData
from src.simulation.lines import LineData
import simulate_network

OUT = DATA / "simulations_output"
SD = {"vm": "voltage_magnitude_sd", "cm": "current_magnitude_sd", "vp": "voltage_phase_sd", "cp": "current_phase_sd"}
BASE = {"vm": 1e-3, "cm": 2e-3, "vp": 3e-4, "cp": 5e-4}
K = 4                      # minutes simulated
FILES = {"L": "sim_loads_%s.npz", "S": "sim_results_%s.npz", "F": "filtered_results_%s.npz", "X": "%s.npz"}
KEYS = {"L": "pqt", "S": "ivy", "F": "ivjw", "X": "ivjwyph"}


class Days(float):
    """a number of days of which the minutes are a whole number"""
    def __new__(cls, f):
        self = float.__new__(cls, f)
        self.f = f
        return self

    def _of(self, f):
        return int(f) if f.denominator == 1 else Days(f)

    __array_ufunc__ = None

    def __mul__(self, k):
        if isinstance(k, np.ndarray):
            return np.array([self.f * int(x) for x in k.ravel()], dtype=object).reshape(k.shape)
        return self._of(self.f * Fraction(int(k)))
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self._of(self.f / Fraction(int(k)))


def profiles():
    rng = np.random.RandomState(5)
    p = rng.uniform(200, 900, (7 * 1440 + 40, 30))
    q = rng.uniform(-600, -100, (7 * 1440 + 40, 30))
    d = DATA / "profiles"
    np.save(d / "p.npy", p)
    np.save(d / "q.npy", q)
    (d / "broken.npy").write_bytes(b"not an array")
    return {"prof": (d / "p.npy", d / "q.npy"), "missing": (d / "p.npy", d / "none.npy"), "broken": (d / "broken.npy", d / "q.npy")}


PROF = profiles()
G = {"g1": 0.1, "g2": 0.004, "gbad": 1e6}
names3 = sorted(net_templates_3ph.ieee123_types)


def templates():
    r = [(1, 2, 0.08, 0.1), (2, 3, 0.05, 0.09), (3, 4, 0.06, 0.04), (1, 3, 0.1, 0.12)]
    line = lambda f, t, a, b: LineData(f, t, 1, r=a, x=b)
    load = lambda i, k: BusData(i, 1, 0.03 * k, 0.02 * k, kv=4.16)
    pcc = lambda i: BusData(i, 3, 0.5, 0.3, kv=4.16)
    net_templates.tiny_bus = [pcc(1), load(2, 1), load(3, 2), load(4, 3)]
    net_templates.tiny_net = [line(*x) for x in r]
    net_templates.tiny2_bus = [load(2, 3), load(4, 1), pcc(3), load(1, 2)]
    net_templates.tiny2_net = [line(*x) for x in r[:3]]
    a = lambda i, k: BusData(i, 1, (0.01 * k, 0.02 * k, 0.015 * k), (0.005 * k, 0.01 * k, 0.008 * k), kv=4.16)
    net_templates_3ph.tiny3_bus = [pcc(1), a(2, 1), load(3, 1), a(4, 2)]
    net_templates_3ph.tiny3_net = [LineData(f, t, 0.3, names3[0]) for f, t, _, _ in r[:3]]


templates()
NAMES = {"a": "tiny", "b": "tiny2", "t": "tiny3"}


def configure(c):
    conf.conf.seed = c["seed"]
    s = conf.simulation
    for k, v in SD.items():
        setattr(s, v, BASE[k] * (3 if c["sd"] == k else 1))
    s.hidden_nodes = sorted(c["hidden"])
    s.constant_load_hidden_nodes = c["const"]
    s.load_constantness = c["constness"] / 100
    s.selected_weeks = np.array([c["weeks"]])
    s.days = Days(Fraction(K, 1440))
    s.time_steps = c["steps"]
    s.measurement_frequency = 0.5
    s.safety_factor = 4


def snapshot():
    out = {}
    for m in (conf.conf, conf.simulation, conf.identification):
        for k, v in vars(m).items():
            if not k.startswith("__") and not callable(v) and type(v).__name__ != "module":
                out[m.__name__ + "." + k] = repr(v)
    return out


def fingerprint(stage, net):
    p = OUT / (FILES[stage] % NAMES[net])
    if not p.is_file():
        return None
    out = {}
    with np.load(p) as f:
        for k in KEYS[stage] + ("a" if stage == "L" and net == "t" else "") + ("f" if stage == "X" else ""):
            x = np.asarray(f[k]).astype(complex).ravel()
            w = np.exp(1j * np.arange(x.size) ** 1.1)
            out[k] = [list(f[k].shape), float(np.abs(x).sum()) if x.size else 0.0, float((w * x).sum().real), float((w * x).sum().imag)]
    return out


def part_of(small, big):
    """every column of small is one of big"""
    return all(np.any(np.all(np.abs(big - small[:, k:k + 1]) <= 1e-12, axis=0)) for k in range(small.shape[1]))


def case(c):
    for f in OUT.glob("*.npz"):
        f.unlink()
    obs = []
    for n, st in enumerate(c["cmds"]):
        cmd = st["cmd"]
        configure(st["conf"])
        before = snapshot()
        np.random.seed(1000 + n)
        np.random.rand(n)
        args = ["--network", NAMES[cmd["net"]]]
        if cmd["src"] in G:
            args += ["-g", str(G[cmd["src"]])]
        else:
            args += ["-a", str(PROF[cmd["src"]][0]), "-r", str(PROF[cmd["src"]][1])]
        args += ["-" + f for f in cmd["flags"]]
        args += (["-t"] if cmd["net"] == "t" else []) + (["-q"] if cmd["seq"] else []) + (["-e"] if cmd["e"] else []) + (["-l"] if cmd["lap"] else [])
        if n % 3 == 2:
            args += ["-v"]
        r = CliRunner().invoke(simulate_network.simulate, args)
        if isinstance(r.exception, drv.Timeout):
            raise r.exception
        drv.same("configuration after run %d" % n, {k: v for k, v in snapshot().items() if k in before}, before)
        o = {"exit": r.exit_code, "why": repr(r.exception)[:300], "saved": {x: {s: fingerprint(s, x) for s in FILES} for x in st["saved"]}}
        if st["how"] == "done" and r.exit_code == 0 and not cmd["seq"] and o["saved"][cmd["net"]]["X"] and o["saved"][cmd["net"]]["F"]:
            with np.load(OUT / (FILES["X"] % NAMES[cmd["net"]])) as x, np.load(OUT / (FILES["F"] % NAMES[cmd["net"]])) as f:
                for k in "ivjw":
                    drv.check("run %d: final '%s' is part of the filtered data" % (n, k), part_of(x[k], f[k]))
        obs.append(o)
    return obs


drv.run(case)
