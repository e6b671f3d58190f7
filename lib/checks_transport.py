"""transport: C17"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length, devices, sizes):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
  MaxDev = {devices}
  Sizes <- GSizes
CHECK_DEADLOCK FALSE
""", "GKinds == <<%s>>\nGSizes == <<%s>>" % (", ".join(f'"{x}"' for x in ks), ", ".join(map(str, sizes)))

MIX = {"open": 3, "send": 20, "twin": 5, "nsend": 3, "pump": 5, "batch": 2, "fail": 1, "close": 1, "crash": 1, "recv": 7, "rtype": 2, "rtypes": 1, "rcorr": 3, "rboth": 1, "cached": 1, "ctypes": 1,
       "flush": 1, "discard": 2, "push": 1}
LOST = dict(MIX, open=5, close=3, crash=2, recv=3, fail=3, send=26, nsend=1)
SIZES = (20, 100, 3000, 8143, 8144, 8145, 16288, 16289, 40000, 70000)
BIG = SIZES + (30000, 100000, 150000, 200000)

MC = """SPECIFICATION Spec
CONSTANTS
  Devices = {1, 2}
  MaxMessages = %d
  MaxSteps = %d
INVARIANTS Inv Once Whole Accounted
VIEW View
CHECK_DEADLOCK FALSE
"""

def c17(ctx):
    quick = ctx.tier == "quick"
    vf.model_check(ctx, "TransportMC", "transport/TransportMC", MC % ((3, 5) if quick else (5, 6)), timeout=3000)
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, sizes, num) in enumerate(((MIX, SIZES, 300), (LOST, SIZES, 300), (MIX, BIG, 150))):
            cfg, defs = gen_cfg(kinds, 60 if k % 2 == 0 else 150, 4 if i != 1 else 9, sizes)
            scripts += vf.generate(ctx, "transport/TransportGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C17", "transport", scripts, "transport/TransportTrace", TRACE, timeout=300)
    ctx.assumptions += ["senders and receivers live in one process and are driven step by step, over real sockets"]
