"""Write the table of planted bugs into DESIGN.md (between the header of the table and the next blank line)."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
lines = open(V + "/DESIGN.md").read().split("\n")
i = lines.index("|---|---|---|", lines.index("| planted bug | property = check that catches it | needs |")) + 1
j = i
while lines[j].startswith("|"):
    j += 1
lines[i:j] = rows
open(V + "/DESIGN.md", "w").write("\n".join(lines))
print(len(rows), "planted bugs")
