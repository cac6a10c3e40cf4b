#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md from seeded/*/meta.json (between the table head and the next blank line)."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"].replace("|", "/")))
s = open("DESIGN.md").read()
s = re.sub(r"(\| seeded bug \|[^\n]*\n\|---\|---\|---\|\n)(?:[^\n]+\n)*", lambda k: k.group(1) + "\n".join(rows) + "\n", s)
open("DESIGN.md", "w").write(s)
