PROPERTY = "C20"; DRIVER = "queue_forward"
EDITS = [("middleware/queue/source/forward/handle.cpp", """                              request.correlation = call->correlation;
                              request.trid = call->trid;
""", """                              request.correlation = call->correlation;
                              if( message.transaction_state == decltype( message.transaction_state)::ok && ! state.pending.transaction.commits.empty())
                                 request.trid = state.pending.transaction.commits.back().trid;
                              else
                                 request.trid = call->trid;
""")]
SCRIPT = """
boot 2 0 0
lookedup qa g1
lookedup qr g2
message 101 aa
service 101 idle
message 102 bb
service 102 idle
reply 101 OK
enqueued 101 1
reply 102 OK
settle
"""
JUDGE = """
def judge(ev):
    for e in ev:
        for o in e.get("out", []):
            if o[0] == "enqueue" and o[2] != o[5]: return "the reply of a flow is stored in the transaction of another"
"""
NEEDS = "a service replies while another flow waits for its commit"
BREAKS = "the reply is stored within the transaction of another flow"
