PROPERTY = "C13"; DRIVER = "gateway_out"
EDITS = [("middleware/gateway/source/group/outbound/state.cpp", """         return ! pending.transactions.contains( descriptor) && ! reply_destination.contains( descriptor) && ! tasks.contains( descriptor);
""", """         return ! reply_destination.contains( descriptor) && ! tasks.contains( descriptor);
""")]
SCRIPT = """
boot 1 1
accept 1 4
call 1 1 c1 s1 1 0
rdisconnect 1
reply 1 1 OK
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if "closed" in o: return "the connection left although a transaction it takes part in is not resolved"
"""
NEEDS = "the other domain asks for disconnect while a call in a transaction is outstanding; the reply comes before the transaction is resolved"
BREAKS = "the connection is closed when the reply has come, the transaction can not be prepared or committed there"
