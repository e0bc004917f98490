#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p)); rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["needs"], m.get("note", "")))
t = "| caught by | change | what it needs in order to manifest |\n|---|---|---|\n" + "".join("| %s | %s | %s%s |\n" % (a, b, c, " — " + n if n else "") for a, b, c, n in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda x: x.group(1) + t + x.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
