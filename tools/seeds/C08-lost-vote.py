PROPERTY = "C08"; DRIVER = "transaction"
EDITS = [("middleware/transaction/source/manager/handle.cpp", """                     auto at_least_one_failed = common::algorithm::any_of( outcome, []( auto& outcome){ return outcome.state == outcome_state::failed;});
""", """                     auto at_least_one_failed = common::algorithm::all_of( outcome, []( auto& outcome){ return outcome.state == outcome_state::failed;});
""")]
SCRIPT = """
boot 1:1
xinvolve 91 1 1
commit 5 1 1 1
reply prepare 1 1 1 ok
xgone 91 0
"""
JUDGE = """
def judge(ev):
    for e in ev:
        for o in e["out"]:
            if o[0] == "req" and o[2] == "commit": return "the transaction is committed although a resource was lost before it voted"
            if o[0] == "commit" and o[2] == "ok": return "commit is answered with ok although a resource was lost before it voted"
"""
NEEDS = "a transaction with several resources, one of them in another process that goes away between the request to prepare and its vote, while the others vote ok"
BREAKS = "the transaction is committed at the resources that are left and the caller is told that it went well"
