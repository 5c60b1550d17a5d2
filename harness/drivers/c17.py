import numpy as np
import drv
from src.models import error_metrics as em


def case(c):
    y, h = drv.arr(c["y"], drv.cint, 2), drv.arr(c["h"], drv.cint, 2)
    want = {"fro_error": np.sqrt(c["fro2"]), "max_error": np.sqrt(c["max2"]), "rrms_error": 100 * np.sqrt(drv.rat(c["rrms2"])),
            "map_error": 100 * np.sqrt(drv.rat(c["map2"]))}
    forms = [(y, h, 1.0), (np.asfortranarray(y), h, 1.0)]
    if not np.any(y.imag) and not np.any(h.imag):
        forms += [(y.real.copy(), h.real.copy(), 1.0), (y.real.astype(int), h.real.astype(int), 1.0), (y.real.copy(), h, 1.0)]
    forms += [(a.flatten(), b.flatten(), s) for a, b, s in forms]
    for e in set(c["units"]):
        forms.append((y * 2.0 ** e, h * 2.0 ** e, 2.0 ** e))
    for a, b, s in forms:
        ka, kb = a.copy(), b.copy()
        all_ = em.error_metrics(a, b)
        for name, w in want.items():
            s_ = s if name in ("fro_error", "max_error") else 1.0
            g = getattr(em, name)(a, b)
            drv.close("%s of %s" % (name, a.shape), g / s_, w, 1e-10, 1e-13)
            drv.close("metrics.%s" % name, getattr(all_, name) / s_, w, 1e-10, 1e-13)
            drv.check("%s is real" % name, not np.iscomplexobj(g))
        drv.close("truth unchanged", a, ka, 0, 0)
        drv.close("estimate unchanged", b, kb, 0, 0)


drv.run(case)
