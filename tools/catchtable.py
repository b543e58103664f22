#!/usr/bin/env python3
"Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "\n## Planted bugs\n"
s = open(V + "/DESIGN.md").read().split(M)[0].rstrip() + "\n"
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
rows.sort()
missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
s += M + "\n%d changes, each compiling, passing the stable tests and failing its own demonstration; caught by the quick check of the\nproperty named (exit 1 with its VIOLATION line) unless marked.\n\n| property / check | change | needs | breaks | caught |\n|---|---|---|---|---|\n" % len(rows)
for p, i, n, b in rows: s += "| %s | %s | %s | %s | %s |\n" % (p, i, n.replace("|", "\\|"), b.replace("|", "\\|"), "no" if i in missed else "yes")
open(V + "/DESIGN.md", "w").write(s)
