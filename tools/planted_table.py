"""Rewrite the table under "## Planted changes" in DESIGN.md from cross.py output files.

usage: planted_table.py CROSS_OUT...
"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) == 3:
            rows[w[0]] = (w[1], w[2])
out = ["| change | property | what it does | reported by |", "|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded"), key=lambda i: (rows.get(i, ("Z", ""))[0], i)):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % i))
    p, hit = rows.get(i, (m["property"], "not run"))
    what = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "/")
    out.append("| `%s` | %s | %s | %s |" % (i, p, what, hit.replace(",", ", ")))
p = HERE + "/DESIGN.md"
s = open(p).read()
a = s.index("## Planted changes")
b = s.find("\n## ", a + 5)
b = len(s) if b < 0 else b
s = s[:a] + """## Planted changes

Each directory of `seeded/` holds one change that compiles, passes the repository's tests and breaks one
property; none of them is read by a check. The last column lists every check that reports it
(`tools/cross.py` runs all the checks against all the changes; `tools/planted_table.py` writes this table).

""" + "\n".join(out) + "\n" + s[b:]
open(p, "w").write(s)
