"""transaction manager: C08, C09"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

VOTES = ("ok",) * 8 + ("read_only",) * 3 + ("rollback_other", "rollback_deadlock", "resource_error", "resource_fail", "invalid_xid")
ENDS = ("ok",) * 8 + ("read_only", "invalid_xid", "resource_fail", "heuristic_rollback", "heuristic_mix", "rollback_other")

def gen_cfg(kinds, length=50, instances=2, rms=3, votes=VOTES, ends=ENDS):
    q = lambda xs: ", ".join(f'"{x}"' for x in xs)
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Votes <- GVotes
  Ends <- GEnds
  Length = {length}
  MaxInstances = {instances}
  MaxRms = {rms}
CHECK_DEADLOCK FALSE
""", f"GKinds == <<{q(ks)}>>\nGVotes == <<{q(votes)}>>\nGEnds == <<{q(ends)}>>"

PROFILES = {
    # outcomes
    "C08": dict(kinds={"involve": 8, "commit": 6, "rollback": 2, "reply": 18, "xprepare": 3, "xcommit": 3, "xrollback": 2, "xreg": 1, "xinvolve": 5,
                       "owner": 1, "inbound": 2, "active": 1, "settle": 1}),
    # resources: one request at a time, and what happens when somebody dies
    "C09": dict(kinds={"involve": 8, "commit": 6, "rollback": 2, "reply": 16, "die": 2, "idle": 1, "xgone": 2, "owner": 3, "xprepare": 1, "xcommit": 1,
                       "xreg": 1, "xinvolve": 3, "active": 1, "settle": 1}, instances=3, rms=2),
}

MC = """SPECIFICATION Spec
CONSTANTS
  Instances = {%s}
  Exts = {91}
  Votes = {"ok", "read_only", "rollback_other"}
  Ends = {"ok", "resource_fail"}
  MaxSteps = %d
INVARIANTS Inv Ends2 Atomic Voted Once Answered
CHECK_DEADLOCK FALSE
"""

def check(prop):
    def body(ctx):
        quick = ctx.tier == "quick"
        kw = PROFILES[prop]
        vf.model_check(ctx, "TransactionManagerMC", "transaction/TransactionManagerMC", MC % ("11, 21" if prop == "C08" else "11, 12, 21", 6 if quick else 8), timeout=3000)
        for k in range(1 if quick else 12):
            cfg, defs = gen_cfg(**dict(kw, length=50 if k % 2 == 0 else 120))
            scripts = vf.generate(ctx, "transaction/TransactionManagerGen", cfg, 300 if quick else 600, seed=k, defs=defs)
            vf.conform(ctx, prop, "transaction", scripts, "transaction/TransactionManagerTrace", TRACE, timeout=300)
        ctx.assumptions += ["resources, callers, domain manager and other transaction managers are played by the driver; the proxies are real processes",
                            "the log is in memory: what it holds is not looked at, only that what depends on it is sent"]
    return body
