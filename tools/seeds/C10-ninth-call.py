PROPERTY = "C10"; DRIVER = "application"
EDITS = [("middleware/common/source/service/call/state.cpp", """m_descriptors.emplace_back( m_descriptors.back().descriptor + 1, true);""", """m_descriptors.emplace_back( static_cast< descriptor_type>( m_descriptors.size()), true);""")]
SCRIPT = """
boot client -
op 1 acall 1 svc - a
lookup 1 idle 1
op 1 acall 2 svc - a
lookup 2 idle 1
op 1 acall 3 svc - a
lookup 3 idle 1
op 1 acall 4 svc - a
lookup 4 idle 1
op 1 acall 5 svc - a
lookup 5 idle 1
op 1 acall 6 svc - a
lookup 6 idle 1
op 1 acall 7 svc - a
lookup 7 idle 1
op 1 acall 8 svc - a
lookup 8 idle 1
op 1 acall 9 svc - a
lookup 9 idle 1
reply 9 ok 0 ok
reply 8 ok 0 ok
op 1 getrply 8 -
op 1 getrply 9 -
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if len({x[1] for x in r[:9]}) != 9: return "two outstanding calls have the same descriptor"
    if len(r) < 11: return "a reply is lost"
    if r[9][4] != "r8" or r[10][4] != "r9": return "a call gets the reply of another call"
"""
NEEDS = "more than eight outstanding calls"
BREAKS = "two calls share a descriptor, one gets the reply of the other one"
