"""Writes the planted-bug table of DESIGN.md (between the TABLE markers) from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m.get("caught", m["property"]), m["what_it_breaks"], m["needs"]))
p = ROOT + "/DESIGN.md"
s = open(p).read().replace("SEEDED_TABLE", "<!--TABLE-->\n<!--/TABLE-->")
s = re.sub(r"<!--TABLE-->.*<!--/TABLE-->", lambda _: "<!--TABLE-->\n" + "\n".join(rows) + "\n<!--/TABLE-->", s, flags=re.S)
open(p, "w").write(s)
