PROPERTY = "C11"; DRIVER = "application"
EDITS = [("middleware/common/source/transaction/context.cpp", """algorithm::rotate( m_transactions, ++found);""", """std::swap( *found, m_transactions.back());""")]
SCRIPT = """
boot client 1:f
op 1 control 42
op 1 begin
op 2 begin
op 3 suspend 1
op 3 begin
op 4 suspend 2
op 4 resume 1
op 4 commit
op 4 rollback
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if [x for e in ev for x in e.get("xa", []) if x[1] == "start" and x[3] == "resume"] != [["1","start","2","resume"],["1","start","1","resume"]]: return "the enclosing transaction is not resumed when the inner one is committed"
    if r[-1][1] != "0": return "the enclosing transaction is lost"
"""
NEEDS = "stacked mode with three transactions, two of them suspended, where the first of those is resumed and committed"
BREAKS = "the enclosing transaction is not current after the commit, and its resources are not resumed"
