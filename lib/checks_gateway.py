"""gateway: C13 (outbound), C14 (inbound)"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length=50, cons=2):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    q = ", ".join(f'"{x}"' for x in ks)
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
  MaxCons = {cons}
CHECK_DEADLOCK FALSE
""", f"GKinds == <<{q}>>"

# requests and answers
CALLS = {"accept": 8, "refuse": 1, "call": 10, "connect": 4, "csend": 2, "cdisconnect": 2, "enqueue": 4, "dequeue": 4, "prepare": 2, "commit": 2, "rollback": 2,
         "discover": 3, "explore": 1, "reply": 9, "connected": 4, "rsend": 4, "enqueued": 3, "dequeued": 3, "prepared": 6, "discovered": 3, "explored": 1, "update": 1,
         "disassociate": 2, "order": 1, "settle": 1, "rdisconnect": 1, "lost": 1, "reset": 1}
# connections that come and go
COMES = {"accept": 10, "refuse": 3, "call": 7, "connect": 3, "cdisconnect": 1, "enqueue": 3, "dequeue": 2, "prepare": 1, "commit": 1, "discover": 2,
         "reply": 4, "connected": 2, "rsend": 2, "enqueued": 1, "dequeued": 1, "prepared": 2, "discovered": 1, "update": 1,
         "disassociate": 2, "order": 2, "rdisconnect": 2, "lost": 2, "reset": 1, "remove": 2, "add": 2, "shutdown": 0}
LEAVE = dict(CALLS, rdisconnect=2, shutdown=1, disassociate=6)

MC_OUT = """SPECIFICATION Spec
CONSTANTS
  Links = {1, 2}
  MaxSteps = %d
  Ops = {%s}
  Trids <- GTrids
INVARIANTS Inv Once Wanted Leaves Gone Enlisted
VIEW View
CHECK_DEADLOCK FALSE
"""
MODELS_OUT = [("call enqueue rdisconnect lost shutdown", "{0}", 6, 9), ("call connect prepare rdisconnect lost remove", "{1, 101}", 5, 8)]

def c13(ctx):
    quick = ctx.tier == "quick"
    for k, (ops, trids, few, many) in enumerate(MODELS_OUT):
        vf.model_check(ctx, f"GatewayOutMC({k + 1})", "gateway/GatewayOutMC", MC_OUT % (few if quick else many, ", ".join(f'"{o}"' for o in ops.split())), timeout=3000, defs=f"GTrids == {trids}")
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((CALLS, 120), (COMES, 120), (LEAVE, 80))):
            cfg, defs = gen_cfg(kinds, length=50 if k % 2 == 0 else 110, cons=2 if i else 3)
            scripts += vf.generate(ctx, "gateway/GatewayOutGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C13", "gateway_out", scripts, "gateway/GatewayOutTrace", TRACE, timeout=300, jobs=24)
    ctx.assumptions += ["the other domains, the managers of this domain and the callers are played by the driver, over real TCP and IPC; one stimulus at a time"]


# --- inbound
IN = {"open": 7, "call": 8, "connect": 4, "csend": 2, "cdisconnect": 2, "enqueue": 3, "dequeue": 3, "prepare": 2, "commit": 2, "rollback": 1, "discover": 2,
      "lookedup": 10, "qlookedup": 5, "branched": 6, "reply": 7, "connected": 3, "rsend": 3, "enqueued": 2, "dequeued": 2, "prepared": 4, "discovered": 2, "update": 1,
      "disassociate": 2, "dreply": 1, "lost": 1, "reset": 1, "settle": 1}
IN_COMES = dict(IN, open=10, lost=3, reset=2, remove=2, add=3, dreply=4, disassociate=4, discover=1, update=0)
IN_LEAVE = dict(IN, shutdown=1, dreply=6, disassociate=6, remove=1)

MC_IN = """SPECIFICATION Spec
CONSTANTS
  Links = {%s}
  MaxSteps = %d
  Ops = {%s}
  Trids <- GTrids
INVARIANTS Inv Once Wanted Leaves Gone Returned Inwards
VIEW View
CHECK_DEADLOCK FALSE
"""
MODELS_IN = [("1", "call enqueue lost shutdown", "{0, 1}", 7, 8), ("1, 3", "call connect prepare lost", "{1}", 6, 8)]

def c14(ctx):
    quick = ctx.tier == "quick"
    for k, (links, ops, trids, few, many) in enumerate(MODELS_IN):
        vf.model_check(ctx, f"GatewayInMC({k + 1})", "gateway/GatewayInMC", MC_IN % (links, few if quick else many, ", ".join(f'"{o}"' for o in ops.split())), timeout=3000, defs=f"GTrids == {trids}")
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((IN, 120), (IN_COMES, 120), (IN_LEAVE, 80))):
            cfg, defs = gen_cfg(kinds, length=60 if k % 2 == 0 else 120, cons=2 if i == 0 else 4)
            scripts += vf.generate(ctx, "gateway/GatewayInGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C14", "gateway_in", scripts, "gateway/GatewayInTrace", TRACE, timeout=300, jobs=24)
    ctx.assumptions += ["the other domains, the managers and the servers of this domain are played by the driver, over real TCP and IPC; one stimulus at a time"]
