#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand when the list changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NA
cfg = json.load(open(os.path.join(ROOT, "checks.json")))
seen = set()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, p["id"]
        q = {k: p[k] for k in ("id", "title", "statement")}
        q["quantifier"] = {"over": p["over"], "text": p["qtext"]}
        q["why_tests_cant"] = p["why"]
        q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if "observe" in p: q["anchors"]["observe_at"] = p["observe"]
        q["anchors"]["hook_needed"] = None
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        if "script" in c:
            c.setdefault("technique", "symbolic execution of clang's LLVM IR of the real classes, with Z3 deciding every branch, memory access and assertion over bit-vectors; counterexamples replayed natively under ASan/UBSan")
            c.setdefault("note", "Every path within the stated bounds, integers with their real width and wrap-around. Trusts the executor (irx/irx.cpp), Z3 and clang's front end and -O1 passes.")
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": c.get("technique", "symbolic execution of the real templates (symbolic scalar type) with Z3 deciding each assertion over all reals; counterexamples replayed on real code"),
                       "level": c.get("level", "other"), "level_note": c.get("note", "Every path within the stated bounds; inputs are exact reals, so floating-point rounding is outside the claim. Trusts the symbolic scalar engine, Z3 and g++.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
man = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "SLP_VERIF", "enable": "No hooks are needed: checks compile /repo's headers and sources with their own scalar type; -DSLP_VERIF is passed but no source tests it.", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "See DESIGN.md. Each check rebuilds its harness from /repo's current headers and sources into a scratch directory and removes it."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
