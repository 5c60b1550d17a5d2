"""Helpers of the drivers that run under the interpreter of the project (PyPy, numpy 1.22)."""
import json, os, signal, sys, traceback
from pathlib import Path
import numpy as np

SCRATCH = Path(os.environ.get("VERIF_SCRATCH", "/tmp"))
PER_CASE = int(os.environ.get("VERIF_PER_CASE", "60"))


class Mismatch(AssertionError):
    pass


class Timeout(Exception):
    pass


def scratch_data(sub="data"):
    """Redirects every file the project writes to a scratch directory; call before importing src.*"""
    import conf.conf as c
    d = SCRATCH / sub
    for s in ("simulations_output/plot_data", "tikz", "profiles"):
        (d / s).mkdir(parents=True, exist_ok=True)
    c.DATA_DIR = d
    c.SIM_DIR = d / "simulations_output"
    return d


def rat(q):
    """<<n, d>> of the spec"""
    return q[0] / q[1]


def crat(z):
    """<<re, im>> of rationals"""
    return complex(rat(z[0]), rat(z[1]))


def cint(z):
    """<<re, im>> of integers"""
    return complex(z[0], z[1])


def amap(f, x, depth):
    return f(x) if depth == 0 else [amap(f, y, depth - 1) for y in x]


def arr(x, f=None, depth=2, dtype=complex):
    return np.array(amap(f, x, depth) if f else x, dtype=dtype)


def dense(m):
    if hasattr(m, "toarray"):
        m = m.toarray()
    return np.asarray(m)


def close(what, got, want, rtol=1e-8, atol=1e-9):
    got, want = dense(got), dense(want)
    if got.shape != want.shape:
        raise Mismatch("%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    g, w = got.astype(complex), want.astype(complex)
    if not np.all(np.isfinite(g)):
        raise Mismatch("%s: not finite: %s" % (what, got))
    scale = np.max(np.abs(w)) if w.size else 0.0
    err = np.max(np.abs(g - w))
    if not err <= atol + rtol * scale:
        k = np.unravel_index(np.argmax(np.abs(g - w)), g.shape)
        raise Mismatch("%s: entry %s is %s instead of %s (max error %.3g)" % (what, tuple(k), g[k], w[k], err))


def same(what, got, want):
    if not got == want:
        raise Mismatch("%s: %r instead of %r" % (what, got, want))


def check(what, cond):
    if not cond:
        raise Mismatch(what)


def _alarm(*a):
    raise Timeout("no answer within %d s" % PER_CASE)


def run(fn):
    """fn(case) -> optional dict of observations; an exception is a deviation of the code under test"""
    cin, cout = sys.argv[1:3]
    # time of the processor, which does not depend on what else runs; and, much longer, of the clock
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    with open(cout, "w") as out:
        for line in open(cin):
            case = json.loads(line)
            signal.setitimer(signal.ITIMER_PROF, PER_CASE)
            signal.alarm(6 * PER_CASE)
            try:
                obs = fn(case)
                r = {"ok": True, "obs": obs}
            except Mismatch as e:
                r = {"ok": False, "msg": str(e)}
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                r = {"ok": False, "msg": "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
            out.write(json.dumps(r) + "\n")
            out.flush()
