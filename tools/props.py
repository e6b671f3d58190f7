"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "middleware/queue/source/group/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, technique, note, hook=False, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe,
                  technique=technique, note=note, hook=hook, level=level))

exec(open(V + "/tools/table.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[dict(name="state", meaning=p["state"], where=p["files"][0])], observe_at=[p["observe"]], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 -B lib/setup.py",
         checks=[dict(property=p["id"], quick_cmd=f"python3 -B lib/check.py {p['id']} quick", thorough_cmd=f"python3 -B lib/check.py {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
         not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
