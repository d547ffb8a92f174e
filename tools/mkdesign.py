"""Refresh the table of planted changes at the end of DESIGN.md (not used by any check)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | breaks | change | needs | caught by (quick) |", "|----|--------|--------|-------|-------------------|"]
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    i = os.path.basename(d); m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(i, [])) or "-"))
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
h = "## Planted changes and the checks that catch them"
i = s.index(h); j = s.find("\n| id | breaks", i); k = s.find("@@TABLE@@", i)
cut = j + 1 if j >= 0 else k
open(p, "w").write(s[:cut] + "\n".join(rows) + "\n")
