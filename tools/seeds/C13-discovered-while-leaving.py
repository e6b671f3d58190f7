PROPERTY = "C13"; DRIVER = "gateway_out"
EDITS = [("middleware/gateway/source/group/outbound/handle.cpp", """                     if( algorithm::find( state.disconnecting, descriptor))
""", """                     if( state.runlevel > decltype( state.runlevel())::running && algorithm::find( state.disconnecting, descriptor))
""")]
SCRIPT = """
boot 1 1
accept 1 4
call 1 1 c1 s1 1 0
rdisconnect 1
discover 1 2 c1 s1 -
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if o[0].startswith("tcp") and o[1] == "discover": return "a connection that leaves is asked for what it offers"
"""
NEEDS = "a discovery request that arrives over a connection that has been asked to leave but still has work outstanding"
BREAKS = "the leaving connection takes on new work, and its services are advertised again"
