PROPERTY = "C22"; DRIVER = "queue"
EDITS = [("middleware/queue/source/group/handle.cpp", "state.size.subtract( state.queuebase.rollback( message.trid));", "state.queuebase.rollback( message.trid);")]
SCRIPT = """
boot 100 2:1:0
enq 2 1 10 0 0 80
rollback 10
enq 2 2 0 0 0 80
"""
JUDGE = """
def judge(ev):
    d = [e for e in ev if e["e"] == "enq"]
    if len(d) != 2: return "no answer"
    if d[1]["code"] != "ok": return "an empty group with capacity refuses a message that fits"
"""
NEEDS = "rollback of enqueues in a group with a capacity"
BREAKS = "the group's size drifts, messages that fit are refused"
