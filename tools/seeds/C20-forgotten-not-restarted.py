PROPERTY = "C20"; DRIVER = "queue_forward"
EDITS = [("middleware/queue/source/forward/handle.cpp", """                                 // We try to restart the flow
                                 local::detail::machine::next( state, forward);
""", """                                 // We try to restart the flow
                                 if( forward.valid_queues())
                                    local::detail::machine::next( state, forward);
""")]
SCRIPT = """
boot 1 0 0
lookedup qa g1
lookedup qr g2
gone g2 ipc
settle
lookedup qr g3
settle
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if len([o for o in rows if o[0] == "dequeue"]) < 2: return "the forward is not started again when the queue is back"
"""
NEEDS = "the group of the reply (or target) queue dies while the forward waits for messages, and comes back"
BREAKS = "the forward never dequeues again"
