"""Rewrite the table of planted bugs in DESIGN.md (between the SEEDED markers)."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m.get("caught", m["property"]), m["what_it_breaks"], m["needs"]))
s = open("DESIGN.md").read()
t = "<!-- SEEDED -->\n" + "\n".join(rows) + "\n<!-- /SEEDED -->"
if "@@SEEDED@@" in s:
    s = s.replace("@@SEEDED@@", t)
else:
    s = re.sub(r"<!-- SEEDED -->.*?<!-- /SEEDED -->", lambda m: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
