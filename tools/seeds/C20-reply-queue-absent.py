PROPERTY = "C20"; DRIVER = "queue_forward"
EDITS = [("middleware/queue/source/forward/handle.cpp", """                        if( message.id)
                        {
                           send::transaction::commit::request( state, std::move( *pending));
""", """                        if( message.id || state.forward_service( pending->id))
                        {
                           // the service has done its work
                           send::transaction::commit::request( state, std::move( *pending));
""")]
SCRIPT = """
boot 1 0 0
lookedup qa g1
lookedup qr g2
message 101 aa
service 101 idle
reply 101 OK
enqueued 101 0
settle
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["commit", "101", "101"] in rows: return "committed although the reply could not be stored"
"""
NEEDS = "the reply queue is removed between the lookup and the reply of the service"
BREAKS = "the transaction is committed although the reply is not stored: it is lost"
