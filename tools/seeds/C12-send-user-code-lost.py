PROPERTY = "C12"; DRIVER = "application"
EDITS = [("middleware/common/source/service/conversation/context.cpp", """                                    result.event = decltype( result.event)::service_fail;
                                    result.user = inp_message.code.user;
""", """                                    result.event = decltype( result.event)::service_fail;
""")]
SCRIPT = """
boot client -
op 1 connect 1 svc sendonly a
lookup 1 idle 1
connected 1 ok
send 1 - service_fail 7 ok a
op 1 send 1 - b
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if r[-1][3] != "7": return "the user code of the service is lost"
"""
NEEDS = "a service that fails while the other side has the control, and the other side sends"
BREAKS = "tpsend reports TPEV_SVCFAIL without the user code of the service"
