PROPERTY = "C11"; DRIVER = "application"
EDITS = [("middleware/common/source/transaction/context.cpp", """               if( transaction.local())
                  return code::ax::ok;
""", """               if( transaction.trid.owner() == process::handle())
                  return code::ax::ok;
""")]
SCRIPT = """
boot client 1:f,2:d
op 1 begin
op 2 call svc - a
lookup 1 idle 1
reply 1 ok 0 ok
op 2 axreg 2
tm 1,2
settle
"""
JUDGE = """
def judge(ev):
    if not [o for e in ev for o in e["out"] if o[0] == "involved" and o[3] == "reply"]: return "the resource is not told to join the work that was done in the service"
"""
NEEDS = "a dynamic resource that registers after the transaction was in a service of another process, which might use the same resource"
BREAKS = "ax_reg says that the resource is new to the transaction although it has to join"
