"""Writes the table of planted bugs into DESIGN.md (DETECTED: tools/detected.json, written by hand from runs of the checks)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(V + "/tools/detected.json"))
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {i} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {det.get(i, '(not run)')} |")
p = V + "/DESIGN.md"; s = open(p).read()
a = s.index("<!-- table -->") + len("<!-- table -->"); b = s.index("<!-- end -->")
open(p, "w").write(s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])
