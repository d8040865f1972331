"""fill the table of properties in DESIGN.md from tools/design-rows.txt and seeded/"""
import json, os, glob
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = {}
for m in sorted(glob.glob(top + "/seeded/*/meta.json")):
    seeds.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = []
for l in open(top + "/tools/design-rows.txt"):
    i, t = l.rstrip("\n").split("|", 1)
    rows.append("| %s | %s | %s |" % (i, t, ", ".join(seeds.get(i, []))))
p = top + "/DESIGN.md"
t = open(p).read()
head = "|----|"
a = t.index("\n", t.index(head)) + 1
b = t.index("\n\n", a) if t[a:].lstrip().startswith("|") else t.index("\n", a)
open(p, "w").write(t[:a] + "\n".join(rows) + t[b:])
