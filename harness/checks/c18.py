import json, os


def run(ctx):
    names = ctx.drive("c18", [{"part": k, "of": 4} for k in range(4)], procs=4)
    data = {"nets": [], "subs": []}
    for r in names:
        if not r["ok"]:
            ctx.violation("c18", {"what": "extraction of the built-in networks"}, r["msg"])
            return
        data["nets"] += r["obs"]["nets"]
        data["subs"] += r["obs"]["subs"]
    p = os.path.join(ctx.scratch, "templates.json")
    json.dump(data, open(p, "w"))
    cases, _ = ctx.tlc("Templates", emit="EmitCase", env={"IN": p}, workers=1, label="built-in networks")
    if len(cases) != len(data["nets"]) + len(data["subs"]):
        raise Exception("some networks were not judged")
    ctx.replayed += len(cases)
    ctx.sample(cases, 8)
    for c in cases:
        if c["problems"]:
            ctx.violation("c18", {"network": c["key"], "problems": c["problems"]}, "%s: %s" % (c["key"], c["problems"]))
