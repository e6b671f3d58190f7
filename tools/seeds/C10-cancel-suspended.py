PROPERTY = "C10"; DRIVER = "application"
EDITS = [("middleware/common/source/transaction/context.cpp", """            return algorithm::any_of( m_transactions, [&correlation]( auto& transaction)
            {
               return transaction.state == Transaction::State::active && transaction.associated( correlation);
            });
""", """            auto& transaction = current();
            return transaction.state == Transaction::State::active && transaction.associated( correlation);
""")]
SCRIPT = """
boot client -
op 1 begin
op 2 acall 1 svc - a
lookup 1 idle 1
op 2 suspend 1
op 2 cancel 1
op 2 resume 1
reply 1 ok 0 ok
op 2 getrply 1 -
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if len(r) < 6: return "the reply of a call within a transaction is lost"
    if r[3][2] != "transaction": return "a call of a suspended transaction can be cancelled"
"""
NEEDS = "an asynchronous call within a transaction that is suspended when the call is cancelled"
BREAKS = "the call is cancelled although it belongs to a transaction, which can not be committed from there on"
