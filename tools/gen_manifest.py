#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the list of checks in harness/src/main.rs and the notes below."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(root, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = re.findall(r'\("(C\d\d)",', open(os.path.join(root, "harness/src/main.rs")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason=NA.get(i, "the check is not built yet")))
        continue
    t, n = T[i]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique="property-based testing: " + t, level="exploration",
        level_note=n + " Trusts proptest's generators, the oracle in harness/src, and rustc; absence of violations is not proved."))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
    notes="One Rust harness (harness/) built against /repo's working tree; check.sh builds it and runs one property as an unprivileged user in a scratch directory. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
