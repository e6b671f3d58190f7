"""queue forward: C20"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length, groups):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
  MaxGroup = {groups}
  Codes <- GCodes
CHECK_DEADLOCK FALSE
""", 'GKinds == <<%s>>\nGCodes == <<"OK", "OK", "OK", "TPESVCFAIL", "TPESVCERR">>' % ", ".join(f'"{x}"' for x in ks)

MIX = {"lookedup": 10, "message": 10, "empty": 1, "forgetreq": 1, "service": 10, "reply": 10, "enqueued": 8, "committed": 8, "rolledback": 8, "vanish": 1, "gone": 1, "notice": 1, "config": 1}
LOST = dict(MIX, vanish=3, gone=3, notice=3, forgetreq=2, lookedup=20)
CONFIG = dict(MIX, config=6, lookedup=14)

MC = """SPECIFICATION Spec
CONSTANTS
  Groups <- MGroups
  MaxSteps = %d
  MaxFlows = %d
  Start0 <- MStart
  Changes <- MChanges
INVARIANTS Inv Once Complete Bounded Ends
CHECK_DEADLOCK FALSE
"""

def c20(ctx):
    quick = ctx.tier == "quick"
    for name, start, changes in (("service", "<<1, 0, 0>>", "{<<2, 0, 0>>}"), ("two", "<<0, 1, 1>>", "{<<0, 0, 1>>}")):
        vf.model_check(ctx, "ForwardMC " + name, "forward/ForwardMC", MC % ((7, 3) if quick else (10, 3)), timeout=3000,
                       defs='MGroups == {"g1", "g2"}\nMStart == %s\nMChanges == %s' % (start, changes))
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((MIX, 200), (LOST, 250), (CONFIG, 150))):
            cfg, defs = gen_cfg(kinds, 60 if k % 2 == 0 else 120, 6)
            scripts += vf.generate(ctx, "forward/ForwardGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C20", "queue_forward", scripts, "forward/ForwardTrace", TRACE, timeout=300, jobs=16)
    ctx.assumptions += ["the queue groups, the servers and the managers are played by the driver, which reports deaths as the domain manager does"]
