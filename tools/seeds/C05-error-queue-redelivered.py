PROPERTY = "C05"; DRIVER = "queue"
EDITS = [("middleware/queue/source/group/queuebase/statement.cpp", '" AND redelivered > ( SELECT q.retry_count FROM queue q WHERE q.id = message.queue);"', '" AND redelivered > ( SELECT q.retry_count FROM queue q WHERE q.id = message.queue - 0 * message.id) + ( state = 2 AND available > 0);"')]
SCRIPT = """
boot - 2:1:50
enq 2 1 0 0 0 10
deq 2 1 10 - 0 1
rollback 10
sleep 80
deq 2 2 20 - 0 1
rollback 20
sleep 80
deq 1 3 0 - 0 1
"""
JUDGE = """
def judge(ev):
    d = [e for e in ev if e["e"] == "deq"]
    if len(d) != 3: return "no answer"
    if d[2]["res"] != "msg": return "not moved to the error queue after the retries"
"""
NEEDS = "a queue with a retry delay, a message rolled back more often than its retry count"
BREAKS = "the message is delivered once more than the retry count before it is moved to the error queue"
