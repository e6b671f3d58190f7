PROPERTY = "C04"; DRIVER = "queue"
EDITS = [("middleware/queue/source/group/queuebase/statement.cpp", "WHERE id = :id AND queue = :queue AND state = 2; )\");", "WHERE id = :id AND queue = :queue AND state >= 2; )\");")]
SCRIPT = """
boot - 2:1:0
enq 2 1 0 0 0 10
deq 2 1 10 - 0 1
deq 2 2 20 i:1 0 1
rollback 10
commit 20
"""
JUDGE = """
def judge(ev):
    d = [e for e in ev if e["e"] == "deq"]
    if len(d) != 2 or d[0]["res"] != "msg": return None if len(d) == 2 else "no answer"
    if d[1]["res"] == "msg": return "a message that is dequeued in an open transaction is dequeued in another one"
"""
NEEDS = "dequeue by message id while the message is dequeued in another open transaction"
BREAKS = "two transactions get the same message"
