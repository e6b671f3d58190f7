"""replay.py FILE: events before the rejected one, and the model state there"""
import sys, json, re, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
import vf
d = json.load(open(sys.argv[1]))
n = d["rejected_at"]
for e in d["trace"][max(0, n - int(sys.argv[2]) if len(sys.argv) > 2 else 0):n]: print(json.dumps(e)[:400])
ctx = vf.Context("X", "quick")
f = ctx.path("t") + "/t.json"
json.dump([d["trace"][:n] + [{"e": "end"}]], open(f, "w"))
# the last state explored
code, out = vf.tlc(ctx, d["module"], d["cfg"].replace("INVARIANTS ", "INVARIANTS NotYet "), env={"TRACES": f}, workers=1,
                   defs=(d.get("defs") or "") + f"\nNotYet == l < {n}")
m = re.findall(r"^State \d+:.*?(?=^State |\Z)", out, re.M | re.S)
print(m[-1][:6000] if m else vf.brief(out)[:3000])
ctx.close()
