PROPERTY = "C20"; DRIVER = "queue_forward"
EDITS = [("middleware/queue/source/forward/handle.cpp", """                              log::line( verbose::log, "message: ", message);

                              auto pending = pending::consume( state.pending.service.lookup_discards, message.correlation);
""", """                              log::line( verbose::log, "message: ", message);

                              if( message.state == decltype( message.state)::replied)
                                 return; // we've received the service already

                              auto pending = pending::consume( state.pending.service.lookup_discards, message.correlation);
""")]
SCRIPT = """
boot 0 1 0
lookedup qb g1
message 201 aa
race
shutdown
service 201 idle
settle
rolledback 201 ok
settle
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["rollback", "201", "201"] not in rows: return "the message is never resolved"
    if not any(e.get("gone") for e in ev): return "the process does not end"
"""
NEEDS = "the service becomes available while the lookup is being discarded, because of a shutdown or fewer instances"
BREAKS = "the transaction of the message is never resolved, the forward never ends"
