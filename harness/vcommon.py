"""Shared machinery of the checks: run TLC on the specification, replay what it generates on the real code,
feed what the real code did back to TLC, report, and write evidence.

A check is a module harness/checks/<id>.py with a function run(ctx).
"""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PYPY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop.lower())
        self.states = self.transitions = self.replayed = 0
        self.samples, self.violations, self.runs, self.notes = [], [], [], []
        self.assumptions = []

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, *a, simulate=None, workers=None, seed=None, **kw):
        """As tlc1; simulations are split over processes with different seeds (TLC's workers would repeat each other)."""
        if not simulate:
            return self.tlc1(module, *a, workers=workers or 4, seed=seed, **kw)
        w = min(workers or CPUS, max(1, simulate // 20))
        base = (self.seed if seed is None else seed) * 1000 + len(self.runs)
        with ThreadPoolExecutor(w) as ex:
            res = list(ex.map(lambda k: self.tlc1(module, *a, simulate=-(-simulate // w), workers=1, seed=base + 37 * k,
                                                  heap="2g", **kw), range(w)))
        seen, cases = set(), []
        for cs, _ in res:
            for c in cs:
                key = json.dumps(c, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    cases.append(c)
        return cases, "\n".join(t for _, t in res)

    def tlc1(self, module, constants=None, invariants=(), properties=(), spec="Spec", constraints=(),
            init=None, next=None, postcondition=None, simulate=None, depth=None, workers=4, emit=None,
            env=None, timeout=600, expect_violation=False, view=None, seed=None, heap="3g", label=None, deque=False):
        """Runs TLC; returns (emitted cases, text output). A violated invariant is a MachineryError:
        the specification itself has to satisfy its theorems whatever the code does."""
        d = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        cfg = []
        if init:
            cfg += ["INIT " + init, "NEXT " + next]
        else:
            cfg += ["SPECIFICATION " + spec]
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= " + str(v)))
        invs = list(invariants)
        if emit:
            invs.append(emit)
        cfg += ["INVARIANT " + i for i in invs]
        cfg += ["PROPERTY " + i for i in properties]
        cfg += ["CONSTRAINT " + i for i in constraints]
        if view:
            cfg.append("VIEW " + view)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK FALSE")
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write("\n".join(cfg) + "\n")
        out = os.path.join(d, "cases")
        e = dict(os.environ, OUT=out)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-nowarning",
                "-config", cfgp, "-seed", str(self.seed if seed is None else seed), "-fp", "1", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        txt = r.stdout
        st = re.search(r"(\d+) states generated, (\d+) distinct states", txt)
        si = re.findall(r"Progress: (\d+) states checked, (\d+) traces", txt) or \
            re.findall(r"states checked (\d+).*?traces generated (\d+)", txt)
        gen, dist = (int(st.group(1)), int(st.group(2))) if st else (0, 0)
        if simulate:
            m = re.findall(r"The number of states generated: (\d+)", txt)
            gen = int(m[-1]) if m else 0
            dist = gen
        self.runs.append({"module": module, "label": label or module, "mode": "simulate" if simulate else "exhaustive",
                          "constants": {k: str(v) for k, v in (constants or {}).items()},
                          "generated": gen, "distinct": dist, "invariants": list(invariants) + list(properties),
                          "wall_s": round(time.time() - t, 1)})
        self.states += dist
        self.transitions += gen
        bad = r.returncode != 0 or "Error:" in txt
        if bad and not expect_violation:
            k = txt.find("Error:")
            raise MachineryError("TLC failed on %s (%s):\n%s\n...\n%s" %
                                 (module, r.returncode, txt[max(k, 0):][:2500], txt[-2500:]))
        cases = []
        if os.path.exists(out):
            seen = set()
            for line in open(out):
                line = line.strip()
                if line and line not in seen:
                    seen.add(line)
                    try:
                        cases.append(json.loads(json.loads(line)))
                    except ValueError:
                        # TLC's workers wrote into each other's (long) lines: once more with one worker
                        if workers == 1:
                            raise
                        self.runs.pop()
                        self.states -= dist
                        self.transitions -= gen
                        shutil.rmtree(d, ignore_errors=True)
                        return self.tlc1(module, constants, invariants, properties, spec, constraints, init, next,
                                         postcondition, simulate, depth, 1, emit, env, timeout, expect_violation,
                                         view, seed, heap, label, deque)
        self.last_bad = bad
        shutil.rmtree(d, ignore_errors=True)
        return cases, txt

    # ---------------------------------------------------------------- real code
    def drive(self, driver, cases, procs=None, timeout=700, extra_env=None, per_case=60):
        """Runs harness/drivers/<driver>.py under the interpreter of the project on the cases (split over processes).
        Returns one result per case: {"ok": bool, "msg": str, ...}."""
        if not cases:
            raise MachineryError("no cases for driver " + driver)
        procs = max(1, min(procs or CPUS, len(cases)))
        parts = [cases[k::procs] for k in range(procs)]
        idx = [list(range(len(cases)))[k::procs] for k in range(procs)]

        def one(k):
            d = tempfile.mkdtemp(prefix="drv%d_" % k, dir=self.scratch)
            cin, cout = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
            with open(cin, "w") as f:
                for c in parts[k]:
                    f.write(json.dumps(c) + "\n")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                       MPLCONFIGDIR=os.path.join(d, "mpl"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                       PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, "harness"), VERIF_REPO=REPO,
                       VERIF_SCRATCH=d, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier,
                       VERIF_PER_CASE=str(per_case), HOME=d, PYTHONWARNINGS="ignore")
            env.update(extra_env or {})
            logp = os.path.join(d, "log")
            with open(logp, "w") as log:
                try:
                    r = subprocess.run([PYPY, os.path.join(VERIF, "harness", "drivers", driver + ".py"), cin, cout],
                                       cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            res = [json.loads(x) for x in open(cout)] if os.path.exists(cout) else []
            if len(res) != len(parts[k]):
                tail = open(logp).read()[-3000:]
                raise MachineryError("driver %s ended early (%s, %d of %d cases):\n%s" %
                                     (driver, rc, len(res), len(parts[k]), tail))
            shutil.rmtree(d, ignore_errors=True)
            return res
        with ThreadPoolExecutor(procs) as ex:
            allres = list(ex.map(one, range(procs)))
        results = [None] * len(cases)
        for ids, rs in zip(idx, allres):
            for i, r in zip(ids, rs):
                results[i] = r
        return results

    def replay(self, driver, cases, label=None, **kw):
        """Replays specification-generated cases on the real code; the driver compares with the values of the spec."""
        results = self.drive(driver, cases, **kw)
        for c, r in zip(cases, results):
            self.replayed += 1
            if not r["ok"]:
                self.violation(driver, c, r.get("msg", ""), label)
        self.sample(cases)
        return results

    def sample(self, cases, n=2):
        for c in cases[:n]:
            s = json.dumps(c)
            self.samples.append(c if len(s) < 3000 else s[:3000])

    def violation(self, driver, case, msg, label=None):
        self.violations.append({"driver": driver, "label": label or driver, "case": case, "msg": msg})

    # ---------------------------------------------------------------- end
    def finish(self):
        known = load_known(self.prop)
        new, old = [], {}
        for v in self.violations:
            key = v["case"].get("key") if isinstance(v["case"], dict) else None
            if key is not None and key in known:
                old[key] = known[key]
            else:
                new.append(v)
        for k, what in old.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.replayed,
                           "samples": self.samples[:8], "tlc_runs": self.runs, "notes": self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s-%d.json" % (self.prop, os.getpid()))
            with open(path, "w") as f:
                json.dump(new[:20], f, indent=1)
            for v in new[:5]:
                print("--- %s: %s" % (v["label"], str(v["msg"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces replayed, %d violations, %.1fs" %
              (self.prop, self.tier, self.states, self.transitions, self.replayed, len(new), time.time() - self.t0))
        return 1 if new else 0


def load_known(prop):
    """known: property=<id> key=<case key> <description>   (lines 'fixed: ...' suppress nothing)"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(prop, tier, seed):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    ctx = Ctx(prop, tier, seed)
    try:
        importlib.import_module("checks." + prop.lower()).run(ctx)
    except MachineryError as e:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        print("ERROR (no verdict): %s" % e)
        return 3
    except Exception:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        traceback.print_exc()
        return 3
    return ctx.finish()
