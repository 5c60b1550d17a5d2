import json

CONSTS = {"Singles": '{"a", "b"}', "Triples": "{}", "MaxCmds": 7, "Random": "TRUE"}


def near(a, b):
    if a is None or b is None:
        return a is b
    if a.keys() != b.keys():
        return False
    return all(x[0] == y[0] and all(abs(u - v) <= 1e-9 * max(x[1], y[1], 1e-30) for u, v in zip(x[1:], y[1:]))
               for x, y in ((a[k], b[k]) for k in a))


def key(term):
    def norm(t):
        return {k: sorted(v) if isinstance(v, list) else norm(v) if isinstance(v, dict) else v for k, v in t.items()}
    return json.dumps(norm(term), sort_keys=True)


def run(ctx):
    inv = ["InvFresh", "InvComplete", "InvNets"]
    ctx.tlc("SimRuns", dict(CONSTS, MaxCmds=2, Random="FALSE"), invariants=inv, properties=["Touched", "ConfKept"], view="View",
            workers=8, label="all pairs of commands")
    ctx.tlc("SimRuns", dict(CONSTS, Singles='{"a"}', MaxCmds=2, Random="FALSE"), properties=["Ends"], workers=8, label="termination")
    k = 1 if ctx.quick else 8
    cases = ctx.tlc("SimRuns", CONSTS, invariants=inv, properties=["Touched", "ConfKept"], emit="EmitCase", simulate=40 * k,
                    depth=100, label="histories")[0]
    cases += ctx.tlc("SimRuns", dict(CONSTS, Triples='{"t"}', Singles='{"a"}', MaxCmds=5), invariants=inv, emit="EmitCase",
                     simulate=8 * k, depth=100, label="three-phase histories")[0]
    cases.sort(key=lambda c: -sum(3 if s["cmd"]["net"] == "t" else 1 for s in c["cmds"]))
    res = ctx.replay("c01", cases, timeout=850, per_case=240)
    seen = {}                     # content by origin, over all histories
    for c, r in zip(cases, res):
        if not r["ok"]:
            continue
        msg = judge(c, r["obs"], seen)
        if msg:
            ctx.violation("c01", c, msg)
    ctx.notes.append("%d different stage results, %d commands" % (len(seen), sum(len(c["cmds"]) for c in cases)))


def judge(c, obs, seen):
    local = {}
    for n, (st, o) in enumerate(zip(c["cmds"], obs)):
        what = "run %d (%s, flags %s, %s)" % (n, st["cmd"]["net"], "".join(sorted(st["cmd"]["flags"])) or "none", st["cmd"]["src"])
        if st["how"] == "done" and o["exit"] != 0:
            return "%s: ended with %s" % (what, o["why"])
        if st["how"] == "failed" and o["exit"] == 0:
            return "%s: went through although it cannot" % what
        for net, stages in st["saved"].items():
            for s, term in stages.items():
                got = o["saved"][net][s]
                if term["k"] == "none":
                    if got is not None:
                        return "%s: saved %s of %s although nothing was to be" % (what, s, net)
                    continue
                if got is None:
                    return "%s: nothing saved for %s of %s" % (what, s, net)
                k = key(term)
                if s == "X" and not term["own"]:      # filter length of another configuration than that of the data
                    got = {x: y for x, y in got.items() if x != "f"}
                old = local.get(k, seen.get(k))
                if old is not None and not near(old, got):
                    return "%s: %s of %s is not what %s gave before" % (what, s, net, k)
                if old is None:
                    for k2, other in list(local.items()) + list(seen.items()):
                        if k2 != k and near(other, got):
                            return "%s: %s of %s should come from %s but is what %s gave" % (what, s, net, k, k2)
                local[k] = got
    for k, v in local.items():
        seen.setdefault(k, v)
    return None
