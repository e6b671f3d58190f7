PROPERTY = "C12"; DRIVER = "application"
EDITS = [("middleware/common/source/service/conversation/context.cpp", """                           message::Type::conversation_disconnect,
                           message::Type::service_reply};
""", """                           message::Type::conversation_disconnect};
""")]
SCRIPT = """
boot client -
op 1 connect 1 svc sendonly a
lookup 1 idle 1
connected 1 ok
reply 1 service_error 0 ok
op 1 send 1 - b
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if r[-1][1] == "0": return "tpsend says nothing about the service that is gone"
"""
NEEDS = "the process of the service ends while the initiator has the control"
BREAKS = "tpsend succeeds for ever, the initiator never learns that the conversation has ended"
