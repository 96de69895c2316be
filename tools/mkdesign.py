"""fills the tables of DESIGN.md (between markers) from props.TRACE, notes and seeded/"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vp import props, kmod
from tools import notes
P = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
rows = ["| id | property | compared with the specification | how |", "|---|---|---|---|"]
for i, p in P.items():
    cl = props.TRACE[i][1] if i in props.TRACE else "contract clauses " + " ".join(sorted(kmod.CHECKS[i][1])) if i in kmod.CHECKS else "results, readings, callbacks, divisors, races, overlapping writes"
    rows.append("| %s | %s | %s | %s |" % (i, p["title"], cl, notes.HOW.get(i, "-")))
bugs = ["| change | property | needs | caught by |", "|---|---|---|---|"]
cat = json.load(open(V + "/tools/bug/caught.json")) if os.path.exists(V + "/tools/bug/caught.json") else {}
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], cat.get(b, "?")))
s = open(V + "/DESIGN.md").read()
def put(s, name, lines):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    t = b + "\n" + "\n".join(lines) + "\n" + e
    return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S) if b in s else s.replace("\n%s\n" % name, "\n%s\n" % t)
s = put(s, "TABLE", rows); s = put(s, "BUGS", bugs)
open(V + "/DESIGN.md", "w").write(s)
