import ast, os, shutil, stat, subprocess
from pathlib import Path
import drv

REPO = Path(os.environ["VERIF_REPO"])
STUB = """#!/bin/sh
# records the command and the configuration it sees, then ends as told
n=$(($(cat "$SWEEP_OUT/n" 2>/dev/null || echo 0) + 1))
echo $n > "$SWEEP_OUT/n"
mkdir "$SWEEP_OUT/$n"
cp conf/*.py "$SWEEP_OUT/$n/"
for a in "$@"; do printf '%s\\n' "$a"; done > "$SWEEP_OUT/$n/args"
exit $(sed -n "${n}p" "$SWEEP_OUT/codes")
"""
VALUES = {"conf.py": ("seed", "noise_level"), "simulation.py": ("days",), "identification.py": ()}


def names(text, keys):
    """values of the configured names, and everything else"""
    vals, rest = {}, []
    for st in ast.parse(text).body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and getattr(st.targets[0], "id", None) in keys:
            v = eval(compile(ast.Expression(st.value), "conf", "eval"), {"selected_weeks": [0], "len": len})
            vals[st.targets[0].id] = v
        else:
            rest.append(ast.dump(st))
    return vals, rest


def config(d):
    vals, rest = {}, []
    for f, keys in VALUES.items():
        v, r = names((d / f).read_text(), keys)
        vals.update(v)
        rest.append(r)
    return vals, rest


def command(args):
    script, flags, opts, k = None, set(), set(), 0
    while k < len(args):
        a = args[k]
        if a.startswith("--"):
            if "=" in a:
                opts.add(tuple(a.split("=", 1)))
            else:
                opts.add((a, args[k + 1]))
                k += 1
        elif a.startswith("-"):
            flags |= set(a[1:])
        else:
            script = os.path.basename(a)
        k += 1
    return script, flags - {"v"}, opts


def case(c):
    work = drv.SCRATCH / "sweep"
    if work.exists():
        shutil.rmtree(str(work))
    (work / "bin").mkdir(parents=True)
    shutil.copytree(str(REPO / "conf"), str(work / "conf"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(str(REPO / "run_multiple_sims.sh"), str(work))
    for n in ("python3", "python"):
        (work / "bin" / n).write_text(STUB)
        (work / "bin" / n).chmod(0o755)
    original = {f: (work / "conf" / f).read_bytes() for f in VALUES}
    default, rest = config(work / "conf")
    drv.same("configured by default", default, {"seed": 131, "noise_level": 1, "days": 7})
    for r, run in enumerate(c["runs"]):
        out = work / ("out%d" % r)
        out.mkdir()
        (out / "codes").write_text("".join("%d\n" % e["fails"] for e in run["log"]) + "0\n" * 200)
        env = {"PATH": str(work / "bin") + ":/usr/local/bin:/usr/bin:/bin", "SWEEP_OUT": str(out), "HOME": str(work), "LC_ALL": "C"}
        p = subprocess.run(["bash", "run_multiple_sims.sh"] + ["-" + "".join(o) for o in run["opts"]], cwd=str(work), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ran = int((out / "n").read_text()) if (out / "n").exists() else 0
        what = "options %s" % " ".join("-" + "".join(o) for o in run["opts"])
        for f in VALUES:
            drv.check("%s: %s is as before" % (what, f), (work / "conf" / f).read_bytes() == original[f])
        drv.same("%s: files in conf" % what, sorted(x.name for x in (work / "conf").iterdir()),
                 sorted(x.name for x in (REPO / "conf").iterdir() if x.name != "__pycache__"))
        drv.same("%s: number of commands" % what, ran, len(run["log"]))
        if run["refused"]:
            drv.check("%s: refused" % what, p.returncode != 0)
        for k, e in enumerate(run["log"]):
            d = out / str(k + 1)
            got = command((d / "args").read_text().splitlines())
            want = (e["cmd"]["script"], set(e["cmd"]["flags"]), {tuple(o) for o in e["cmd"]["opts"]})
            drv.same("%s: command %d" % (what, k + 1), got, want)
            vals, others = config(d)
            drv.same("%s: configuration of command %d" % (what, k + 1), vals,
                     {"seed": e["conf"]["seed"], "noise_level": e["conf"]["noise"] / 1000, "days": e["conf"]["days"]})
            drv.check("%s: rest of the configuration at command %d" % (what, k + 1), others == rest)


drv.run(case)
