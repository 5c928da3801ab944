#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!--bugs-->.*<!--/bugs-->", lambda _: "<!--bugs-->\n" + "\n".join(rows) + "\n<!--/bugs-->", s, flags=re.S)
open(p, "w").write(s)
