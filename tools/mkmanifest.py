#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness specifications."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
na = json.load(open(V + "/tools/not_applicable.json"))
checks, nal = [], []
for p in props:
    i = p["id"]
    if i in na:
        nal.append({"property": i, "reason": na[i]})
        continue
    spec = json.load(open("%s/harness/%s.json" % (V, i)))
    b = "; ".join("%s: %s" % (e["name"], e["bounds"]) for u in spec["units"] for e in u["entries"])
    checks.append({"property": i, "quick_cmd": "python3 tools/run.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "bounded symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion",
                   "level": "model_checking",
                   "level_note": "All inputs within the stated bounds, nothing beyond them. Bounds: " + b + ". Trusted: clang -O1 lowering, the interpreter, Z3, the runtime models in rt/ and shim/."
                   + ("" if not spec.get("assumptions") else " Assumes: " + "; ".join(spec["assumptions"]) + ".")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "HAXORG_VERIF", "enable": "no hooks are needed: harnesses compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": nal,
     "notes": "Every check lowers its harness and the named /repo sources to LLVM IR on each run. Known and fixed defects are in known-findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nal), "not applicable")
