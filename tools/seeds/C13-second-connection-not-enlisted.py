PROPERTY = "C13"; DRIVER = "gateway_out"
EDITS = [("middleware/gateway/source/group/outbound/state.cpp", """                  if( algorithm::find( found->second, descriptor))
                     return false;
                  
                  found->second.push_back( descriptor);
                  return true;
""", """                  const auto associated = ! found->second.empty();

                  if( ! algorithm::find( found->second, descriptor))
                     found->second.push_back( descriptor);

                  return ! associated;
""")]
SCRIPT = """
boot 2 1
accept 1 4
accept 2 4
call 1 1 c1 s1 1 0
call 2 2 c1 s2 1 0
settle
"""
JUDGE = """
def judge(ev):
    n = sum(1 for e in ev for o in e["out"] if o[:2] == ["tm", "involved"])
    if n < 2: return "the transaction manager was told of %d of 2 connections" % n
"""
NEEDS = "a transaction that goes over two connections of the same group"
BREAKS = "the transaction manager does not know of the second connection, the work done there is never prepared or committed"
