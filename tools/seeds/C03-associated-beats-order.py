PROPERTY = "C03"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/state.cpp", "if( auto found = algorithm::find_first_of( m_prioritized_concurrent, preferred))", "if( auto found = algorithm::find_first_of( m_concurrent, preferred))")]
SCRIPT = """
boot 0 linger
cadv 21 1 1:0 -
lookup 1 1 regular internal 5 1 0
cadv 22 2 1:0,2:0 -
cadv 21 1 2:1 -
corder 21 3
lookup 2 1 regular internal 5 1 0
"""
JUDGE = """
def judge(ev):
    a = [e for e in ev if e["e"] == "lookup"][1]["out"]
    if [o[3] for o in a] != ["22"]: return "the lookup does not lead to the connection with the best order"
"""
NEEDS = "a transaction that has been to a remote instance, and a remote instance with a better order that came afterwards"
BREAKS = "the configured order of connections is not respected"
