"""seed.py make <id>...: writes seeded/<id> from tools/seeds/<id>.py
   seed.py try <id>... [--check|--tests]: applies the patch to /repo, runs the demo (and the property's check, the stable tests), undoes it

A seed file defines PROPERTY, DRIVER, EDITS [(file, old, new)], SCRIPT (text), JUDGE (python: def judge(events) -> reason or None), NEEDS, BREAKS, RUNS"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(i):
    ns = {"RUNS": 1}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), ns)
    return ns
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def make(i):
    s = load(i)
    d = f"{V}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/harness/drivers"); os.makedirs(d + "/lib")
    w = tempfile.mkdtemp()
    patch = ""
    for f in dict.fromkeys(f for f, _, _ in s["EDITS"]):
        text = new = open("/repo/" + f).read()
        for g, a, b in s["EDITS"]:
            if g == f:
                assert new.count(a) == 1, (i, f, new.count(a), a)
                new = new.replace(a, b)
        for x, t in (("a", text), ("b", new)):
            p = f"{w}/{x}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
    patch = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    shutil.rmtree(w)
    shutil.copytree(V + "/harness/shim", d + "/harness/shim")
    for x in ["vf.h", "fake.h"] + [y for y in os.listdir(V + "/harness/drivers") if y.endswith(".h") and (s["DRIVER"].startswith(y[:-2]) or '"' + y + '"' in open(V + "/harness/drivers/" + s["DRIVER"] + ".cpp").read())] + [y for y in os.listdir(V + "/harness/drivers") if y.startswith(s["DRIVER"])]:
        shutil.copy(V + "/harness/drivers/" + x, d + "/harness/drivers")
    for x in ["build.py", "vfrun.py"]: shutil.copy(V + "/lib/" + x, d + "/lib")
    shutil.copy(V + "/tools/demo.py", d)
    open(d + "/script", "w").write(s["SCRIPT"].strip() + "\n")
    open(d + "/judge.py", "w").write(s["JUDGE"].strip() + "\n")
    open(d + "/demo.sh", "w").write(f'#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec python3 -B "$here/demo.py" {s["DRIVER"]} {s["RUNS"]}\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
def attempt(i, flags):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    res = [i]
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(f"demo clean {r.returncode}")
    if r.returncode: print(r.stdout[-1500:])
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    try:
        r = sh("bash /opt/vp/build.sh"); res.append(f"build {r.returncode}")
        if r.returncode: print(r.stdout[-1500:])
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(f"demo bug {r.returncode}")
        if "--tests" in flags:
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            o = json.load(open("/tmp/seed-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            res.append(f"stable failing {len(set(b['stable']) - set(o['passed']))}")
        if "--check" in flags:
            r = sh(f"python3 -B {V}/lib/check.py {prop} quick"); res.append(f"check {r.returncode} " + ("CAUGHT" if f"VIOLATION property={prop}" in r.stdout else "MISSED"))
            if "--show" in flags: print(r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(res), flush=True)
if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    flags = [a for a in sys.argv[2:] if a.startswith("--")]
    for i in ids or sorted(x[:-3] for x in os.listdir(V + "/tools/seeds") if x.endswith(".py")):
        if sys.argv[1] == "make": make(i)
        else: attempt(i, flags)
    if sys.argv[1] != "make": sh("bash /opt/vp/build.sh")
