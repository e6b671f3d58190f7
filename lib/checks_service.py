"""service manager: C01-C03"""
import vf

TRACE = """SPECIFICATION Spec
CONSTANTS
  Slop = 4
  Visibility <- VVisibility
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
DEFS = 'VVisibility(x) == IF x = 4 THEN "undiscoverable" ELSE "discoverable"'

def gen_cfg(kinds, length=40, services=(1, 2, 3, 4), routed=(2,), seq=(1, 2, 3), con=(21, 22, 23), callers=(1, 2, 3, 4), durations=(0,),
            sems=("regular",), reqs=("internal",), trans=(1, 2, 3), short=400):
    q = lambda xs: ", ".join(f'"{x}"' for x in xs)
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Slop = 0
  Visibility <- VVisibility
  Kinds <- GKinds
  Length = {length}
  Services = {{{", ".join(map(str, services))}}}
  Routed = {{{", ".join(map(str, routed))}}}
  Sequentials0 = {{{", ".join(map(str, seq))}}}
  Concurrents0 = {{{", ".join(map(str, con))}}}
  Callers = {{{", ".join(map(str, callers))}}}
  Durations = {{{", ".join(map(str, durations))}}}
  Sems <- GSems
  Reqs <- GReqs
  Trans = {{{", ".join(map(str, trans))}}}
  ShortMs = {short}
CHECK_DEADLOCK FALSE
""", DEFS + f"\nGKinds == <<{q(ks)}>>\nGSems == <<{q(sems)}>>\nGReqs == <<{q(reqs)}>>"

PROFILES = {
    # who gets an instance
    "C01": dict(kinds={"lookup": 12, "ack": 8, "adv": 3, "clear": 1, "discard": 2, "leave": 1, "exit": 1, "dreply": 1, "remote": 1, "prep": 1}, con=(21,),
                sems=("regular",) * 4 + ("no_reply", "wait", "forward"), reqs=("internal",) * 4 + ("external", "external_discovery")),
    # failures
    "C02": dict(kinds={"lookup": 12, "ack": 6, "adv": 3, "die": 2, "exit": 1, "discard": 2, "callergone": 1, "prep": 1, "leave": 1, "sleep": 2, "dreply": 1, "creset": 1, "cadv": 1},
                con=(21,), durations=(0, 250, 250, 60000), sems=("regular",) * 5 + ("no_reply", "wait", "forward")),
    # where a lookup goes
    "C03": dict(kinds={"lookup": 12, "ack": 4, "adv": 3, "clear": 1, "cadv": 5, "corder": 2, "creset": 1, "exit": 1, "disassociate": 2, "visible": 3, "remote": 1, "dreply": 2},
                durations=(0, 60000), services=(1, 2, 3, 4), reqs=("internal",) * 3 + ("external", "external_discovery")),
}

MC = """SPECIFICATION Spec
CONSTANTS
  Slop = 0
  Visibility <- VVisibility
  Callees = {1, 2}
  Remotes = {21}
  Services = {1, 2}
  Routed = {2}
  MaxLookups = %d
  MaxSteps = %d
  Sems = {"regular", "no_reply"}
  Reqs = {"internal"}
INVARIANTS Inv Prompt AnsweredOnce NotForgotten ErrorOnce Leaving DeadlinesLive
CHECK_DEADLOCK FALSE
"""

def model(ctx, lookups, steps):
    vf.model_check(ctx, "ServiceManagerMC", "service/ServiceManagerMC", MC % (lookups, steps), timeout=3000, defs=DEFS)

def check(prop):
    def body(ctx):
        quick = ctx.tier == "quick"
        kw = PROFILES[prop]
        model(ctx, 3, 5 if quick else 7)
        for k in range(1 if quick else 12):
            cfg, defs = gen_cfg(**dict(kw, length=50 if k % 2 == 0 else 100))
            scripts = vf.generate(ctx, "service/ServiceManagerGen", cfg, (250 if prop == "C02" else 400) if quick else 600, seed=k, defs=defs)
            vf.conform(ctx, prop, "service", scripts, "service/ServiceManagerTrace", TRACE, timeout=300, jobs=16 if prop == "C02" else None, defs=DEFS)
        ctx.assumptions += ["the manager sees servers, callers, discovery and the transaction manager only through messages; the driver is all of them",
                            "times are compared in ms, with 4 ms of slop; a timer may be 700 ms late"]
    return body
