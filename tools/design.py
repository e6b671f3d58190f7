"""rewrites the generated tables of DESIGN.md (seeds, findings) between the markers"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seeds():
    rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    caught = json.load(open(V + "/tools/caught.json"))
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, 'not tried yet')} |")
    return "\n".join(rows)
def findings():
    rows = []
    for k in json.load(open(V + "/known-findings.json")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", k["entry"])
        rows.append(f"* **{m[1]}** `{m[2]}` {m[3]}" if m else f"* {k['entry']}")
    return "\n".join(sorted(rows))
t = open(V + "/DESIGN.md").read()
for name, f in (("seeds", seeds), ("findings", findings)):
    t = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m[1] + f() + "\n" + m[2], t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
