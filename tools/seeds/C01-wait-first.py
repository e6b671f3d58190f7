PROPERTY = "C01"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/handle.cpp", """                              // we know the service exists, and it got instances, we do a regular pending.
                              state.pending.lookups.emplace_back( std::move( message), platform::time::clock::type::now());
""", """                              // we know the service exists, and it got instances, we do a regular pending.
                              state.pending.lookups.emplace( std::begin( state.pending.lookups), std::move( message), platform::time::clock::type::now());
""")]
SCRIPT = """
boot 0 linger
adv 1 1 -
lookup 1 1 regular internal 0 1 0
lookup 2 1 regular internal 0 2 0
lookup 3 1 wait internal 0 3 0
ack 1 0
"""
JUDGE = """
def judge(ev):
    a = [e for e in ev if e["e"] == "ack"][0]["out"]
    if [o[1] for o in a if o[0] == "lookup"] != ["2"]: return "the one that waited the longest did not get the instance"
"""
NEEDS = "several pending lookups for a service, a later one with the semantic wait"
BREAKS = "callers that wait are not served in the order they came"
