"""domain manager: C18"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
CHECK_DEADLOCK FALSE
""", 'GKinds == <<%s>>' % ", ".join(f'"{x}"' for x in ks)

MIX = {"connect": 12, "single": 2, "stray": 1, "kill": 4, "reap": 5, "hold": 2, "release": 2, "scale": 5, "lookup": 3, "find": 1}
ROLL = dict(MIX, restart=6, replace=8, scale=3, connect=14, kill=5, reap=2)
SLOW = dict(MIX, connect=4, hold=4, scale=7, kill=6, lookup=5)

MC = """SPECIFICATION Spec
CONSTANTS
  MaxSteps = %d
  MaxProcesses = 6
INVARIANTS Inv Sorted Idle Empty Quiet Single Waits
CHECK_DEADLOCK FALSE
"""

def c18(ctx):
    quick = ctx.tier == "quick"
    vf.model_check(ctx, "DomainMC", "domain/DomainMC", MC % (4 if quick else 6), timeout=3000)
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((MIX, 100), (SLOW, 70), (ROLL, 130))):
            cfg, defs = gen_cfg(kinds, 45 if k % 2 == 0 else 90)
            scripts += vf.generate(ctx, "domain/DomainGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C18", "domain", scripts, "domain/DomainTrace", TRACE, timeout=300, jobs=16)
    ctx.assumptions += ["what the domain manager starts are sleeping processes, the driver connects for them, and holds and kills them; the driver is the service manager"]
