PROPERTY = "C14"; DRIVER = "gateway_in"
EDITS = [("middleware/gateway/source/group/inbound/state.cpp", """                  if( ! algorithm::container::erase( pair.second.descriptors, descriptor).empty())
                     return false;
""", """                  if( ! algorithm::contains( pair.second.descriptors, descriptor))
                     return false;
""")]
SCRIPT = """
boot
open 1 4
open 3 4
call 1 1 s1 1 0
lookedup 1 1 idle s1 sv1
branched 1 1 1
reply 1 1 OK
call 3 2 s2 1 0
lookedup 3 2 idle s2 sv2
reply 3 2 OK
lost 1
prepare 3 3 1
settle
"""
JUDGE = """
def judge(ev):
    if not any(o[0] == "tm" and "prepare" in o for e in ev for o in e["out"]): return "prepare is not passed on to the transaction manager"
"""
NEEDS = "a transaction over two connections, one of them is lost, and the other domain prepares over the remaining one"
BREAKS = "the branch is forgotten when one of the connections is lost, and the prepare never reaches the transaction manager"
