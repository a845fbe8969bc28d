"""writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
t = "## Planted bugs and what catches them\n\nQuick tier, seed 1. `tools/seed.py` builds, demonstrates and checks each.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"; s = open(p).read()
if "@@SEEDS@@" in s: s = s.replace("@@SEEDS@@", "<!-- seeds -->\n" + t + "<!-- /seeds -->")
else: s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s)
open(p, "w").write(s)
