"""Rewrite the table of planted bugs between the markers in DESIGN.md (every planted bug is caught by its own property's check)"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    d = open(os.path.dirname(f) + "/patch.diff").read()
    files = sorted({os.path.basename(x) for x in re.findall(r"^\+\+\+ b/(\S+)", d, re.M)})
    rows.append("| %s | %s | %s | %s | %s |" % (i, ", ".join(files), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
t = "| bug | file | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = root + "/DESIGN.md"; s = open(p).read(); a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
