"""queue group: C04-C07, C22"""
import vf

TRACE = """SPECIFICATION Spec
CONSTANTS
  Slop = 4
  Aspects = {%s}
  Crashes = %s
CONSTRAINT Progress
INVARIANTS %s
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def trace_cfg(aspects, crashes=False, invariants="Home"):
    return TRACE % (", ".join(f'"{a}"' for a in aspects), "TRUE" if crashes else "FALSE", invariants)

def gen_cfg(kinds, length=40, base=(2, 4), trans=3, branches=False, delay=60, blocking=False, clients=2, quiet=5, capacity=0,
            retries=(0, 1, 2), delays=(0,), again=True):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Slop = 0
  Base = {{{", ".join(map(str, base))}}}
  Kinds <- GKinds
  Length = {length}
  MaxTrans = {trans}
  Again = {"TRUE" if again else "FALSE"}
  DelayMs = {delay}
  Branches = {"TRUE" if branches else "FALSE"}
  Clients = {clients}
  Blocking = {"TRUE" if blocking else "FALSE"}
  QuietEvery = {quiet}
  Capacity = {capacity}
  Retries = {{{", ".join(map(str, retries))}}}
  Delays = {{{", ".join(map(str, delays))}}}
CHECK_DEADLOCK FALSE
""", "GKinds == <<" + ", ".join(f'"{k}"' for k in ks) + ">>"

DRIVER = "queue"
PROFILES = {
    "C04": (dict(kinds={"enq": 10, "deq": 9, "commit": 5, "rollback": 4, "prepare": 1, "mpeek": 1, "browse": 1, "peek": 1}, branches=True), ["retry"], False),
    "C05": (dict(kinds={"enq": 6, "deq": 9, "commit": 2, "rollback": 7, "sleep": 2, "restore": 1}, delays=(0, 50)), ["retry"], False),
    "C06": (dict(kinds={"enq": 6, "deq": 5, "commit": 4, "rollback": 3, "prepare": 1, "crash": 2, "burst": 4}, trans=3, delay=60000), ["retry"], True),
    "C07": (dict(kinds={"enq": 10, "deq": 12, "commit": 5, "rollback": 4, "forget": 3, "exit": 1, "sleep": 1, "restore": 1, "shutdown": 1, "timers": 1}, blocking=True), ["retry"], True),
    "C22": (dict(kinds={"enq": 10, "deq": 6, "commit": 4, "rollback": 4, "restore": 2, "clear": 1, "remove": 2, "recover": 2, "reset": 1, "peek": 1,
                        "mpeek": 1, "config": 1}, capacity=500, again=False), ["retry", "count", "size"], False),
}

def model(ctx, steps):
    cfg = open(vf.SPECS + "/queue/QueueGroupMC.cfg").read().replace("@STEPS@", str(steps))
    vf.model_check(ctx, "QueueGroupMC", "queue/QueueGroupMC", cfg, timeout=3000)

def check(prop):
    def body(ctx):
        quick = ctx.tier == "quick"
        kw, aspects, crashes = PROFILES[prop]
        model(ctx, 4 if quick else 6)
        for k in range(1 if quick else 12):
            cfg, defs = gen_cfg(**dict(kw, length=40 if k % 2 == 0 else 90))
            scripts = vf.generate(ctx, "queue/QueueGroupGen", cfg, 240 if quick else 400, seed=k, defs=defs)
            vf.conform(ctx, prop, DRIVER, scripts, "queue/QueueGroupTrace", trace_cfg(aspects, crashes), timeout=300, jobs=16 if prop == "C07" else None)
        ctx.assumptions += ["the group sees its clients only through messages; the driver is client, queue manager and transaction manager",
                            "times are compared in ms, with 4 ms of slop"]
    return body
