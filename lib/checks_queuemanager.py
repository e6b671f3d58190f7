"""queue manager: C21"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
CHECK_DEADLOCK FALSE
""", 'GKinds == <<%s>>' % ", ".join(f'"{x}"' for x in ks)

MIX = {"lookup": 24, "discard": 3, "discovered": 7, "late": 1, "advertise": 12, "remove": 3, "instance": 4, "reset": 2, "find": 4, "known": 3,
       "hold": 1, "release": 1, "kill": 1, "gone": 3, "goner": 1, "vanishr": 1}
FEW = dict(MIX, advertise=8, remove=5, reset=3, discovered=4, kill=0, vanishr=2, known=5)

MC = """SPECIFICATION Spec
CONSTANTS
  Ids <- MIds
  LNames <- MNames
  Outs <- MOuts
  MaxSteps = %d
INVARIANTS Inv Once Local
CHECK_DEADLOCK FALSE
"""

def c21(ctx):
    quick = ctx.tier == "quick"
    vf.model_check(ctx, "QueueManagerMC", "queuemanager/QueueManagerMC", MC % (5 if quick else 7), timeout=3000,
                   defs='MIds == {"1", "2"}\nMNames == {"qa", "qd", "qx"}\nMOuts == {"o1", "o2"}')
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((MIX, 200), (FEW, 100))):
            cfg, defs = gen_cfg(kinds, 70 if k % 2 == 0 else 120)
            scripts += vf.generate(ctx, "queuemanager/QueueManagerGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C21", "queue_manager", scripts, "queuemanager/QueueManagerTrace", TRACE, timeout=300, jobs=16)
    ctx.assumptions += ["outbound gateways, discovery, domain manager and those who look queues up are played by the driver; the queue groups are real"]
