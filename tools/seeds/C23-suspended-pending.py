PROPERTY = "C23"; DRIVER = "application"
EDITS = [("middleware/common/source/transaction/context.cpp", """            algorithm::for_each( transactions, pending_check);
""", """            if( ! transactions.empty())
               pending_check( transactions.back());
""")]
SCRIPT = """
boot server 1:f
serve 500 atomic 0 0 1
op 2 acall 1 svc - a
lookup 1 idle 1
op 2 suspend 1
op 2 begin
op 3 commit
op 3 begin
op 4 return success 0 a
tm ok commit
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if o[0] == "reply" and o[3] == "ok": return "the service is reported as successful although a call within its transaction is unanswered"
"""
NEEDS = "a service that leaves a call unanswered in its transaction, which is suspended when the service returns while another transaction is current"
BREAKS = "the transaction is committed with an unanswered call"
