PROPERTY = "C21"; DRIVER = "queue_manager"
EDITS = [("middleware/queue/source/manager/handle.cpp", """                           reply.state = decltype( reply.state)::discarded;
                           state.pending.lookups.erase( std::begin( found));
""", """                           reply.state = decltype( reply.state)::discarded;

                           // a direct lookup is removed when we get the discovery reply
                           if( found->context.semantic == decltype( found->context.semantic)::wait)
                              state.pending.lookups.erase( std::begin( found));
""")]
SCRIPT = """
boot
lookup 1 r1 qx direct internal dequeue
discard 1 r1
advertise o1 0 qx -
discovered 1
lookup 5 r1 qx direct internal any
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["discarded", "r1", "1", "1"] not in rows: return "not discarded"
    if [o for o in rows if o[:3] == ["reply", "r1", "1"]]: return "the lookup is answered after it was discarded"
"""
NEEDS = "a lookup that is discarded while the discovery it has caused is under way"
BREAKS = "it is answered although it has been discarded"
