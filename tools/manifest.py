#!/usr/bin/env python3
"""Regenerate MANIFEST.json: one entry per property that has a check in checks/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
TECH = "explicit-state bounded model checking of the real code: exhaustive enumeration of operation sequences, inputs and random choices against a dense reference model"
special = {}
sp = f"{root}/tools/technique.json"
if os.path.exists(sp):
    special = json.load(open(sp))
checks, na = [], []
for p in props:
    i = p["id"]
    src = glob.glob(f"{root}/checks/{i}_*.cpp")
    if not src:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    t = open(src[0]).read()
    m = re.search(r'\},\s*\{\s*("(?:[^"\\]|\\.)*"(?:\s*"(?:[^"\\]|\\.)*")*)\s*,\s*\{[^{}]*\}\s*\}\s*\);\s*\}\s*$', t)
    bounds = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) if m else ""
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"./run.sh {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": special.get(i, {}).get("technique", TECH),
        "level": "model_checking",
        "level_note": "Every execution within the bounds is run on the code in /repo/include itself (no separate model to keep in step). Bounds: " + bounds + ". Trusted: the explorer mc/mc.hpp, the dense reference mc/ref.hpp, the compiler; values come from finite alphabets.",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "DD_PACKAGE_STORAGE_HOOKS", "enable": "run.sh C38 compiles the headers with -DDD_PACKAGE_STORAGE_HOOKS (all other checks leave it off)",
                     "source_commits": ["accdb56"]},
           "notes": "run.sh compiles checks/<id>_*.cpp against /repo/include of the current working tree on every run; only C38 uses the hooks."},
          open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
