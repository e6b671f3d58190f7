PROPERTY = "C13"; DRIVER = "gateway_out"
EDITS = [("middleware/gateway/source/group/outbound/state.cpp", """                     if( algorithm::container::erase( pair.second, std::begin( found)).empty())
                        return true;
                  }
                  return false;
""", """                     algorithm::container::erase( pair.second, std::begin( found));
                     return true;
                  }
                  return false;
""")]
SCRIPT = """
boot 2 1
accept 1 4
accept 2 4
call 1 1 c1 s1 1 0
call 2 2 c1 s2 1 0
reply 2 2 OK
lost 1
rdisconnect 2
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if o[0].startswith("tcp2") and "closed" in o: return "the connection left although a transaction it takes part in is not resolved"
"""
NEEDS = "a transaction over two connections, one of them is lost, then the other is asked to leave before the transaction is resolved"
BREAKS = "the connection leaves with an unresolved transaction"
