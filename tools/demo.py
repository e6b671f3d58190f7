"""Runs a scripted driver against /repo's build and judges what it saw.
usage: demo.py <driver> [runs]; script and judge.py lie beside it"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
scratch = tempfile.mkdtemp(prefix="demo-")
os.environ["VF_OUT"] = scratch + "/build"
sys.dont_write_bytecode = True
sys.path.insert(0, here + "/lib"); sys.path.insert(0, here)
import build, judge
driver, runs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
code = 0
try:
    build.ensure([driver])
    for k in range(runs):
        d = f"{scratch}/{k}"
        os.makedirs(d + "/tmp")
        r = subprocess.run([sys.executable, "-B", here + "/lib/vfrun.py", "60", build.OUT + "/bin/drv_" + driver, here + "/script", d + "/out"],
                           env=build.environment(d + "/tmp"), cwd=d)
        events = [json.loads(l) for l in open(d + "/out")] if os.path.exists(d + "/out") else []
        for e in events: e.setdefault("out", [])
        why = judge.judge(events)
        if why:
            print("wrong:", why)
            for e in events[-8:]: print(" ", json.dumps(e)[:400])
            code = 1
            break
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(code)
