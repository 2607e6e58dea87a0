#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks registered in mc/src/props/mod.rs."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
have = set(re.findall(r'"(P\d\d)" p', open(f"{R}/mc/src/props/mod.rs").read()))
notes = json.load(open(f"{R}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "no check has been built for this property yet")))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
    notes="All checks run one binary (mc/) that links /repo's crates through path dependencies and is rebuilt from the working tree on every run. No hooks in /repo are needed.")
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
open(f"{R}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
