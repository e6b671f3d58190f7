"""a process of an application: C10, C11, C12, C23"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

XA = {"start": ("resource_fail", "resource_error", "duplicate_xid", "rollback_other", "outside"),
      "end": ("resource_fail", "resource_error", "rollback_other"),
      "commit": ("resource_fail", "heuristic_mix", "heuristic_hazard", "heuristic_rollback", "rollback_other", "resource_error"),
      "rollback": ("resource_fail", "heuristic_mix", "heuristic_hazard", "resource_error")}

def gen_cfg(kinds, mode=("client",), length=40, states=("ok", "ok", "rollback", "timeout", "error"), codes=("ok", "service_fail", "service_fail", "service_error", "timeout", "no_entry", "system"),
            tm=("ok", "ok", "ok", "rollback", "mixed", "hazard", "error", "fail", "protocol")):
    q = lambda xs: ", ".join(f'"{x}"' for x in xs)
    ks = [k for k, w in kinds.items() for _ in range(w)]
    xa = " @@ ".join(f'("{k}" :> <<{q(v)}>>)' for k, v in XA.items())
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Mode <- GMode
  XaCodes <- GXa
  States <- GStates
  Codes <- GCodes
  TmCodes <- GTm
  Length = {length}
CHECK_DEADLOCK FALSE
""", f"GKinds == <<{q(ks)}>>\nGMode == <<{q(mode)}>>\nGXa == {xa}\nGStates == <<{q(states)}>>\nGCodes == <<{q(codes)}>>\nGTm == <<{q(tm)}>>"

PROFILES = {
    # calls
    "C10": dict(kinds={"call": 5, "acall": 8, "getrply": 6, "any": 3, "cancel": 2, "lookup": 4, "reply": 10, "begin": 4, "commit": 4, "rollback": 1, "suspend": 1, "resume": 1,
                       "tm": 4, "timeout": 1, "gone": 1, "axreg": 1, "axunreg": 1, "serve": 1, "return": 1}, mode=("client", "client", "client", "server")),
    # demarcation
    "C11": dict(kinds={"begin": 10, "commit": 9, "rollback": 5, "suspend": 6, "resume": 6, "control": 3, "creturn": 2, "timeout": 1, "call": 3, "lookup": 3, "reply": 5, "tm": 8,
                       "axreg": 5, "axunreg": 3, "xa": 7}),
    # conversations
    "C12": dict(kinds={"connect": 6, "connected": 6, "send": 10, "recv": 10, "discon": 2, "say": 14, "lookup": 4, "begin": 3, "commit": 3, "rollback": 1, "tm": 3, "gone": 1,
                       "converse": 4, "return": 2}, mode=("client", "client", "server")),
    # services
    "C23": dict(kinds={"serve": 8, "converse": 2, "return": 7, "forward": 2, "call": 3, "acall": 3, "getrply": 2, "lookup": 5, "reply": 8, "begin": 3, "commit": 3, "rollback": 2, "suspend": 1,
                       "resume": 1, "tm": 8, "axreg": 2, "xa": 4, "send": 1, "recv": 1, "say": 2, "gone": 1}, mode=("server",)),
}

# worlds of their own that the mixes above seldom get to: (profile, length, scripts)
EXTRA = {
    # many calls that are outstanding at the same time
    "C10": [(dict(kinds={"acall": 12, "lookup": 12, "getrply": 2, "any": 1, "cancel": 1, "reply": 3, "begin": 1}), 90, 60)],
    # transactions within transactions: stacked
    "C11": [(dict(kinds={"stack": 4, "begin": 10, "suspend": 5, "resume": 6, "axreg": 4, "xa": 2, "call": 2, "lookup": 2, "reply": 2, "commit": 3, "rollback": 1, "tm": 5}), 60, 150)],
}

# small worlds that are explored in full: mode, resources that are fixed, all resources, operations, services, steps (quick, thorough)
MODELS = {
    "C10": [("client", (1,), (1, 2), "begin commit rollback call acall getrply cancel", "", 9, 12),
            ("server", (1,), (1, 2), "begin commit call acall getrply cancel return", "automatic none", 8, 11)],
    "C11": [("client", (1,), (1, 2), "begin commit rollback suspend resume call acall getrply axreg control", "", 9, 12)],
    "C12": [("client", (1,), (1,), "begin commit rollback connect send recv discon", "", 9, 12),
            ("server", (1,), (1,), "connect send recv discon return", "automatic none", 8, 10)],
    "C23": [("server", (1,), (1, 2), "begin commit rollback suspend resume call acall getrply cancel return forward", "automatic join none branch", 8, 11)],
}

MC = """SPECIFICATION Spec
CONSTANTS
  Mode = "%s"
  Fix <- GFix
  All <- GAll
  Ops = {%s}
  Kinds = {%s}
  MaxSteps = %d
INVARIANTS Allowed Quiet Left Clean Answered Acked Descriptors Pending
VIEW View
CHECK_DEADLOCK FALSE
"""

def check(prop):
    def body(ctx):
        quick = ctx.tier == "quick"
        kw = PROFILES[prop]
        q = lambda xs: ", ".join(f'"{x}"' for x in xs.split())
        for mode, fix, every, ops, kinds, few, many in MODELS[prop]:
            vf.model_check(ctx, f"ApplicationMC({mode})", "application/ApplicationMC", MC % (mode, q(ops), q(kinds), few if quick else many), timeout=3000,
                           defs="GFix == <<%s>>\nGAll == <<%s>>" % (", ".join(map(str, fix)), ", ".join(map(str, every))))
        for k in range(1 if quick else 12):
            cfg, defs = gen_cfg(**dict(kw, length=50 if k % 2 == 0 else 120))
            scripts = vf.generate(ctx, "application/ApplicationGen", cfg, 400 if quick else 800, seed=k, defs=defs)
            for extra, length, many in EXTRA.get(prop, ()):
                cfg, defs = gen_cfg(**dict(extra, length=length))
                scripts += vf.generate(ctx, "application/ApplicationGen", cfg, many if quick else 3 * many, seed=100 + k, defs=defs)
            vf.conform(ctx, prop, "application", scripts, "application/ApplicationTrace", TRACE, timeout=300)
        ctx.assumptions += ["service-manager, transaction-manager, the instances that are called and the callers are played by the driver; the application is a real process with scripted resources (xa switches)"]
    return body
