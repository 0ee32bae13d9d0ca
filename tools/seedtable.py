# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), " ".join(m["needs"].split()).replace("|", "/"), m.get("caught_by", m["property"] + " quick")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = re.sub(r"SEEDTABLE|<!-- planted -->.*?<!-- /planted -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
