"""``python tools/design.py`` writes DESIGN.md from the parts (head, checks' own docstrings, tail)."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import PROPS  # noqa: E402

out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
for p in PROPS:
    m = importlib.import_module(f"checks.{p['id'].lower()}")
    out.append(f"### {p['id']} - {p['title']}\n\n{p['statement']}\n\n*Workload and oracle.* {m.RULE.strip()}\n\n*Quantifier.* {p['text']}.  *Beyond the tests:* {p['why']}\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append(f"*Strength.* {p['note']}\n")
rows = ["| planted bug | needs |", "| --- | --- |"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    rows.append(f"| {d} | {json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))['needs']} |")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().replace("@PLANTS@", "\n".join(rows)))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
