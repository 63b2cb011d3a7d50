#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the texts below and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
L = []
def P(id, title, statement, over, text, why, files, mechanism, state, observe, hook=None):
    assert len(title) <= 80, title
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": s, "where": files[0]} for s in mechanism], "state": [{"name": s, "meaning": s, "where": files[0]} for s in state], "observe_at": observe, "hook_needed": hook}})
C, LO = "crates/bonsaidb-core/src/", "crates/bonsaidb-local/src/"
exec(open(os.path.join(V, "tools", "texts.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in L]
assert len(set(ids)) == len(ids)
assert set(PROPS) <= set(ids), set(PROPS) - set(ids)
checks = []
for p in L:
    if p["id"] not in PROPS:
        assert p["id"] in NA, p["id"]
        continue
    b = PROPS[p["id"]]["bounds"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled code's LLVM IR (khsym) with z3/cvc5 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking", "level_note": "bounded: " + (b if isinstance(b, str) else b["quick"])})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's crates as they are", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k in ids],
     "notes": "Every check rebuilds the harness IR from /repo's current working tree (cached by a digest of the sources). known_findings.txt lists the recorded defects and the repaired ones."}
assert all(k in ids for k in NA), set(NA) - set(ids)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(L), "properties", len(checks), "checks", len(NA), "n/a")
