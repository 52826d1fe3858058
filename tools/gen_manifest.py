#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks_conf.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_conf import ASSUME, B, CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TECH = "symbolic execution of the compiled LLVM IR of /repo, assertions discharged by the z3 SMT solver; counterexamples replayed natively"
checks = []
for p in props:
    pid = p["id"]
    ents = [e for g in CHECKS[pid] for e in g["entries"]]
    note = ("Every path of the real code within the stated bounds is executed symbolically and every assertion on it decided by the solver (bounded; nothing claimed beyond): "
            + "; ".join("%s: %s" % (e, B[e][0]) for e in ents)
            + ". Trusts the IR interpreter in engine/ (cross-checked against native runs of sampled path models), z3, clang, the C++ library; symbolic double arithmetic is over the reals."
            + ("" if pid not in ASSUME else " Assumes: " + " ".join(ASSUME[pid]) + "."))
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": TECH, "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine BUILD=/verif/build/engine", "checks": checks, "not_applicable": [],
           "notes": "One driver (check.py) for all properties; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
