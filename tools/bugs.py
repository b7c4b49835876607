#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (development helper)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "<!-- bugs -->\n\n| bug | check | what it breaks |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (p.split("/")[-2], m["property"], m["what_it_breaks"]) for p in sorted(glob.glob(V + "/seeded/*/meta.json")) for m in [json.load(open(p))]) + "\n<!-- /bugs -->"
s = open(V + "/DESIGN.md").read()
s = s.replace("@@BUGS@@", t) if "@@BUGS@@" in s else re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
