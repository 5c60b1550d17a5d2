#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when harness/checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "TLC explores command histories and derives, for every archive and field, which earlier command and setting each value comes from; every history is run with the real commands and the partition of the recorded values (equal / different) has to be the one of the terms. Bounded by history length and the sampled histories.",
 "C02": "As C01 for the identification command, with recording solvers: the calls received and the archives after every command have to match the specification's terms. Bounded by history length and the sampled histories.",
}
DEF = ("TLC checks the design properties on the specification and generates behaviours with exact expected values; "
       "every one is replayed on the real code. Bounded by the constants in the evidence file; trusts TLC, the "
       "driver's comparison tolerances, numpy/scipy/pandapower primitives.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p,
                       "thorough_cmd": "bin/check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification checked with TLC, spec-generated behaviours replayed on the code",
                       "level": "model_checking", "level_note": NOTES.get(p, DEF)})
    else:
        na.append({"property": p, "reason": "No check yet: the specification module for it is planned in DESIGN.md."})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks import /repo's working tree as it is", "source_commits": []},
           "notes": "Pure Python project: nothing to build, every check imports /repo's current working tree."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
