"""Writes the tables of ../DESIGN.md between the markers from properties.jsonl, MANIFEST.json and seeded/ (development aid; no check uses it)."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
D = os.path.join(V, "DESIGN.md")
s = open(D).read()
rows = ["| seeded change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % d
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(D, "w").write(s)
