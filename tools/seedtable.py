"""rewrites the table of planted bugs in DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "| bug | caught by | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    t += "| %s | %s | %s |\n" % (d, m.get("caught_by", m["property"]), m["needs"])
s = open(V + "/DESIGN.md").read()
h = s.index("(`tools/tryseed.sh ID`).") + len("(`tools/tryseed.sh ID`).")
open(V + "/DESIGN.md", "w").write(s[:h] + "\n\n" + t)
