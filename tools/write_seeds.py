#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two marker lines) from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {"c28-ramp-at-jump": "missed at first: C28 samples at the jumps of the signals since",
        "c24-idwt-one-extra": "missed at first: C24's shape mutations now also change one coefficient array by one or two samples",
        "c29-central-frequency-cache": "missed at first: C29 has the family `lookalike` since (same name, other attributes or filters)"}
rows = ["| planted bug | property | needs | caught by |", "| --- | --- | --- | --- |"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    by = m.get("caught_by", m["property"])
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {by}{' - ' + NOTE[i] if i in NOTE else ''} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
if a not in s:
    raise SystemExit("no marker in DESIGN.md")
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
