"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | needs |", "|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    rows.append("| %s | %s |" % (s, json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))["needs"]))
p = os.path.join(ROOT, "DESIGN.md")
t = re.sub(r"(?s)<!-- planted -->.*<!-- /planted -->", lambda m: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", open(p).read())
open(p, "w").write(t)
