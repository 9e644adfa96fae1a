"""Rewrites the table of planted bugs in DESIGN.md (between the SEEDS markers)."""
import json, glob, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks |", "|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[-2], d["property"], d["what_it_breaks"]))
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(seed.py eval`\).\n\n).*?(\n\n<!--/SEEDS-->)", lambda m: m.group(1) + "\n".join(rows) + m.group(2), s, flags=re.S)
open(p, "w").write(s)
