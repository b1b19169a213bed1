"""Rewrite the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    cell = lambda t: " ".join(t.split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
s = re.sub(r"(?s)(<!-- table -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s)
open(path, "w").write(s)
