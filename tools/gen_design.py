#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the parts in tools/ and the table of planted bugs."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = set("""c06-cold-floor c07-slow-waves c16-finite-dump-only c06-large-mesh c12-linear-skip c17-thousand
c20-eager-metadata c23-cached-tableau c30-counter-lost""".split())
if os.path.exists(os.path.join(root, "tools", "missed.txt")):
    MISSED |= set(open(os.path.join(root, "tools", "missed.txt")).read().split())
rd = lambda n: open(os.path.join(root, "tools", n)).read()
rows = []
for f in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append((m["property"], i, m["needs"]))
rows.sort()
out = rd("design_head.md") + rd("design_props.md") + rd("design_tail.md").replace("%COUNT%", str(len(rows)))
for p, i, n in rows:
    star = "*" if i in MISSED else ""
    out += f"| {i}{star} | {p} | {n} |\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)
