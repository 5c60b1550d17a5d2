import numpy as np
import drv
from src.simulation import lines as ln

A = complex(-0.5, np.sqrt(3) / 2)


def num(u):
    return drv.rat(u[0]) + drv.rat(u[1]) * A


def case(c, unit=1.0):
    fn = {("meas", "phase"): ln.measurement_sequence_to_phase, ("meas", "seq"): ln.measurement_phase_to_sequence,
          ("adm", "phase"): ln.admittance_sequence_to_phase, ("adm", "seq"): ln.admittance_phase_to_sequence}
    x = drv.arr(c["hist"][0]["before"], num, 2) * unit
    first = x.copy()
    for k, s in enumerate(c["hist"]):
        keep = x.copy()
        y = fn[c["what"], s["to"]](x)
        drv.close("step %d %s to %s" % (k, c["what"], s["to"]), y, drv.arr(s["after"], num, 2) * unit, 1e-10, 1e-10 * unit)
        drv.close("argument", x, keep, 0, 0)
        if not np.any(x.imag):                   # of real numbers
            forms = [x.real.copy()] + ([x.real.astype(int)] if np.all(x.real == np.round(x.real)) else [])
            for z in forms:
                drv.close("step %d %s to %s of reals" % (k, c["what"], s["to"]), fn[c["what"], s["to"]](z), y, 1e-12, 1e-12 * unit)
        x = y
    if c["what"] == "meas":                      # currents of a decoupled network agree in both domains
        Y = drv.arr(c["dec"], num, 2)
        drv.close("phase currents", fn["meas", "phase"](first) @ fn["adm", "phase"](Y), fn["meas", "phase"](first @ Y), 1e-9, 1e-9 * unit)
        drv.close("sequence currents", fn["meas", "seq"](first @ fn["adm", "phase"](Y)), fn["meas", "seq"](first) @ Y, 1e-9, 1e-9 * unit)


def units(c):
    case(c)
    case(c, (1e-9, 1e7, 1e-3 / 7)[len(str(c["hist"])) % 3])


drv.run(units)
