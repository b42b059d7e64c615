#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], " ".join(m["needs"].replace("|", "/").split())))
rows.append("<!-- /seeds -->")
fn = H + "/DESIGN.md"
s = open(fn).read()
s = re.sub("<!-- seeds -->.*<!-- /seeds -->", lambda _: "\n".join(rows), s, flags=re.S)
open(fn, "w").write(s)
