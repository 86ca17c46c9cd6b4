"""Dev helper: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and a results
file (lines "<id> <check> rc <n> ..."), as written while evaluating them. Never run by a check."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) >= 4 and w[2] == "rc":
            res.setdefault(w[0], {})[w[1]] = w[3] == "1"
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| planted bug | property | caught by | what it needs |\n|---|---|---|---|\n"
n = c = 0
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); r = res.get(i, {})
    by = " ".join(sorted(k for k in r if r[k])) or "-"
    n += 1; c += bool(r.get(m["property"]))
    s += "| %s | %s | %s | %s |\n" % (i, m["property"], by, m["needs"].replace("|", "\\|").replace("\n", " "))
s += "\n%d of %d are caught by the check of their own property (quick tier, seed 1).\n" % (c, n)
open(p, "w").write(s)
print(c, n, [i for i in sorted(os.listdir(V + "/seeded")) if i not in res])
