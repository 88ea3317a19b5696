#!/usr/bin/env python3
"""By hand: rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json. MISS lists those first missed."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted changes")
j = s.find("\n## ", i + 5)
head = """## Planted changes

`seeded/` holds changes written from the properties' text; each was confirmed to compile, to pass the stable tests and to fail its own
demonstration. Each is caught by the check of its property. About half were missed when they were planted and led to a stronger
check (wider shapes, extreme values, zero gradients, uniformity per place of an epoch, relative accuracy, long tensors, ...).

"""
open(p, "w").write(s[:i] + head + "\n".join(rows) + "\n" + (s[j:] if j > 0 else ""))
