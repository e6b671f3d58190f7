"""discovery: C19"""
import vf

TRACE = """SPECIFICATION Spec
CONSTRAINT Progress
INVARIANTS Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def gen_cfg(kinds, length):
    ks = [k for k, w in kinds.items() for _ in range(w)]
    return f"""SPECIFICATION Spec
CONSTANTS
  Kinds <- GKinds
  Length = {length}
CHECK_DEADLOCK FALSE
""", 'GKinds == <<%s>>' % ", ".join(f'"{x}"' for x in ks)

MIX = {"register": 3, "request": 10, "api": 7, "rediscover": 2, "lookedup": 16, "discovered": 14, "late": 1, "knows": 6, "direct": 3, "implicit": 2,
       "timeout": 4, "vanish": 1, "gone": 1, "notice": 1, "vanishr": 1, "config": 1}
CALM = dict(MIX, direct=0, implicit=0, request=7, vanishr=0, config=3)
LOST = dict(MIX, register=6, vanish=2, gone=3, notice=2, late=4, discovered=9, lookedup=11)

MC = """SPECIFICATION Spec
CONSTANTS
  Ids <- MIds
  Wants <- MWants
  Has_ <- MHas
  Provs <- MProvs
  Routes0 <- MRoutes
  MaxSteps = %d
INVARIANTS Inv Once True Asks Ends
CHECK_DEADLOCK FALSE
"""

def c19(ctx):
    quick = ctx.tier == "quick"
    for name, provs, routes, wants in (("two", '{<<"p1", {"d", "l"}>>, <<"p2", {"d", "k"}>>}', "<< >>", '{{"b"}, {"a", "b"}}'),
                                       ("routes", '{<<"p1", {"d", "l"}>>, <<"p2", {"d"}>>}', '"a" :> {"x", "y"}', '{{"x", "b"}, {"y"}}')):
        vf.model_check(ctx, "DiscoveryMC " + name, "discovery/DiscoveryMC", MC % (6 if quick else 8), timeout=3000,
                       defs='MIds == {"1", "2"}\nMWants == %s\nMHas == {{}, {"a"}, {"b"}}\nMProvs == %s\nMRoutes == %s' % (wants, provs, routes))
    for k in range(1 if quick else 10):
        scripts = []
        for i, (kinds, num) in enumerate(((MIX, 250), (CALM, 150), (LOST, 200))):
            cfg, defs = gen_cfg(kinds, 70 if k % 2 == 0 else 150)
            scripts += vf.generate(ctx, "discovery/DiscoveryGen", cfg, num if quick else 2 * num, seed=10 * k + i, defs=defs)
        vf.conform(ctx, "C19", "discovery", scripts, "discovery/DiscoveryTrace", TRACE, timeout=300, jobs=16)
    ctx.assumptions += ["the providers, the requesters and the domain manager are played by the driver, which reports deaths as the domain manager does",
                        "the timer of the accumulation is played by the driver, which sends what its signal handler pushes"]
