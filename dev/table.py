"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = root + "/DESIGN.md"
head = open(f).read().split("| id | property |")[0]
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"],
                m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(f, "w").write(head + "\n".join(rows) + "\n")
