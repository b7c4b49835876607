#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (development helper)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None)), ensure_ascii=False) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"): na.append(dict(property=p["id"], reason=p["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"], technique=p.get("technique", "symbolic execution of the built modules' LLVM IR with SMT (z3), counterexamples replayed natively"), level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'lib'); import vtbuild; vtbuild.ensure_engine()\"", checks=checks, not_applicable=na, notes="No hooks are needed in /repo: the checks copy its working tree, build it with its own Makefile, and re-derive LLVM IR from the same compiler command lines on every run. Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
