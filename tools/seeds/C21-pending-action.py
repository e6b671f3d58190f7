PROPERTY = "C21"; DRIVER = "queue_manager"
EDITS = [("middleware/queue/source/manager/handle.cpp", """                     if( auto queue = state.queue( lookup.name, lookup.context.action))
                     {
                        log::line( verbose::log, "queue: ", *queue);

                        auto reply""", """                     if( auto queue = state.queue( lookup.name, {}))
                     {
                        log::line( verbose::log, "queue: ", *queue);

                        auto reply""")]
SCRIPT = """
boot
lookup 1 r1 qx wait internal dequeue
advertise o1 0 qx+e -
discovered 1
advertise o2 1 qx -
lookup 5 r1 qx direct internal any
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["reply", "r1", "1", "qx=o2:2"] not in rows: return "the lookup leads to a queue that can not be dequeued from"
"""
NEEDS = "a lookup that waits for a queue to dequeue from, when a queue with only enqueue enabled is advertised"
BREAKS = "the lookup is answered with a queue that can't be used for what it is for"
