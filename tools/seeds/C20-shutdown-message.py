PROPERTY = "C20"; DRIVER = "queue_forward"
EDITS = [("middleware/queue/source/forward/handle.cpp", """                        else if( state.runlevel > decltype( state.runlevel())::running)
                        {
                           // if we're in""", """                        else if( state.runlevel > decltype( state.runlevel())::running && state.forward_queue( pending->id))
                        {
                           // if we're in""")]
SCRIPT = """
boot 0 1 0
lookedup qb g1
race
shutdown
message 201 aa
rolledback 201 ok
settle
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if any(o[0] == "service" for o in rows): return "a message is forwarded after the shutdown"
"""
NEEDS = "a message that arrives between the shutdown and the discard of the dequeue, for a service forward"
BREAKS = "the message is forwarded to the service after the shutdown: the lookup waits for a service that might never come"
