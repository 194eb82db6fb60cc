#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = R + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
