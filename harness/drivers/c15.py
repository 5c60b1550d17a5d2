import numpy as np
import drv
DATA = drv.scratch_data()
from conf import conf
from src.simulation.load_profile import BusData
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
from src.simulation import run, run3ph


def case(case):
    c, plan, three = case["cf"], case["plan"], case["three"]
    n, ph = len(c["ids"]), 3 if three else 1
    unit = (1.0, 0.01, 20.0)[c["seed"] % 3]                            # of the nominal powers
    bus = []
    for k in range(n):
        p, q = [unit * x / 100 for x in c["p"][k]], [unit * x / 100 for x in c["q"][k]]
        if k + 1 == c["pcc"]:
            bus.append(BusData(c["ids"][k], 3, 5.0, 4.0))
        elif k + 1 in c["gen"]:
            bus.append(BusData(c["ids"][k], 2, 0.0, 0.0))
        elif three and k + 1 not in c["sym"]:
            bus.append(BusData(c["ids"][k], 1, p, q))
        else:
            bus.append(BusData(c["ids"][k], 1, p[0], q[0]))
    net = SimulatedNet3P({}, bus, []) if three else SimulatedNet(bus, [])
    if c["turn"] == 0:                       # loads come in an order and with numbers of their own
        net.load = net.load.iloc[::-1]
        net.load.index = [3 * k + 1 for k in range(len(net.load))]
        net.asymmetric_load = net.asymmetric_load.iloc[::-1]
    net.name = "tiny_meas"
    v, i = drv.arr(c["v"], drv.cint, 2) / 20, drv.arr(c["i"], drv.cint, 2) / 7
    times = np.arange(v.shape[0]) * 60
    fmeas = c["per_min"] / 60
    sds = [0.0 if c["zero"] else drv.rat(c[k]) for k in ("vm", "cm", "vp", "cp")]
    safety = np.array([drv.rat(s) for s in c["safety"]])
    conf.seed = c["seed"]
    given = [x.copy() for x in (v, i, times, safety)]
    m = run3ph if three else run
    params = (sds[0], sds[1], sds[2], sds[3], c["equiv"], safety if three else float(safety[0]))
    if three and c["seed"] % 4 == 0:        # the options can be given in a read-only array
        safety.flags.writeable = False
    # whatever has been drawn before
    np.random.seed(c["steps"])
    got = m.add_noise_and_filter(net, v, i, times, fmeas, c["steps"], params, verbose=False)
    noisy_v, noisy_i, clean_v, clean_i, ratings, f = got
    for x, y, w in zip((v, i, times, safety), given, ("voltage", "current", "times", "safety factor")):
        drv.close("given %s unchanged" % w, x, y, 0, 0)
    drv.close("sensor ratings", ratings, unit ** 2 * drv.arr(plan["ratings"], drv.rat, 1, float), 1e-10, 1e-13 * unit ** 2)
    drv.same("averaging factor", int(f), plan["f"])
    # clean data: interpolated on the grid, averaged by block
    grid = np.linspace(0, times[-1], plan["grid"])
    rows = plan["grid"] // plan["block"]
    both = np.hstack((v, i))
    lin = np.stack([np.interp(grid, times, s.real) + 1j * np.interp(grid, times, s.imag) for s in both.T], axis=1)
    clean = lin[:rows * plan["block"]].reshape(rows, plan["block"], -1).mean(axis=1)
    drv.close("clean data", np.hstack((clean_v, clean_i)), clean, 1e-9, 1e-10)
    # noisy data: what the noise model gives for the planned deviations of every series
    mag, phs = [drv.arr(plan[k], drv.rat, 1, float) / np.sqrt(plan["div"]) for k in ("mag", "phs")]
    mag[n * ph:] *= unit ** 2
    np.random.seed(c["seed"])
    want = filter_and_resample_measurement(both, oldtimes=times, newtimes=grid, fparam=plan["block"], std_m=mag, std_p=phs,
                                           noise_fcn=add_polar_noise_to_measurement)
    drv.close("noisy voltages", noisy_v, want[:, :n * ph], 1e-9, 1e-10)
    drv.close("noisy currents", noisy_i, want[:, n * ph:], 1e-9, 1e-10)
    if c["zero"]:
        drv.close("measurements without noise", np.hstack((noisy_v, noisy_i)), clean, 1e-9, 1e-10)
    # saved as they are, and read back whatever data come with the request
    d = np.load(DATA / "simulations_output" / "filtered_results_tiny_meas.npz")
    for k, x in zip("vijw", (noisy_v, noisy_i, clean_i, clean_v)):
        drv.close("saved '%s'" % k, d[k], x, 0, 0)
    again = m.add_noise_and_filter(net, 2 * v, 3 * i, times, fmeas, c["steps"], None, verbose=False)
    for x, y, w in zip(again[:4], got[:4], ("noisy voltages", "noisy currents", "voltages", "currents")):
        drv.close("reloaded " + w, x, y, 0, 0)
    drv.same("averaging factor when reloading", int(again[5]), plan["f"])
    drv.close("ratings when reloading", again[4], unit ** 2 * drv.arr(plan["default"], drv.rat, 1, float), 1e-10, 1e-13 * unit ** 2)


drv.run(case)
