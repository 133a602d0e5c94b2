#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.

The third column is kept for bugs already listed; new ones are entered as "not tried"."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
head = text.split("SEEDTABLE")[0] if "SEEDTABLE" in text else text[:text.index("| bug |")]
old = dict(re.findall(r"^\| ([a-z0-9-]+) \| C\d\d \| .*? \| ([^|]*) \|$", text, re.M))
out = ["| bug | property | breaks | quick check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    id = os.path.basename(os.path.dirname(f))
    out.append(f"| {id} | {m['property']} | {m['what_it_breaks']} | {old.get(id, 'not tried')} |")
open(path, "w").write(head + "\n".join(out) + "\n")
