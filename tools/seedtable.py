#!/usr/bin/env python3
# Writes DESIGN.md: design_head.md and the table of planted changes.
import json, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(v, "tools", "design_head.md")).read()
s += "| change | caught by | needs | breaks |\n|---|---|---|---|\n"
for n in sorted(os.listdir(os.path.join(v, "seeded"))):
    m = json.load(open(os.path.join(v, "seeded", n, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], m["what_it_breaks"])
open(os.path.join(v, "DESIGN.md"), "w").write(s)
