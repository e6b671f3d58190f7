PROPERTY = "C10"; DRIVER = "application"
EDITS = [("middleware/common/source/service/call/state.cpp", """            const auto& holder = get( descriptor);

            // Can't""", """            const auto holder = get( descriptor);
            unreserve( descriptor);

            // Can't"""),
 ("middleware/common/source/service/call/state.cpp", """            communication::ipc::inbound::device().discard( holder.correlation);

            unreserve( descriptor);
""", """            communication::ipc::inbound::device().discard( holder.correlation);
""")]
SCRIPT = """
boot client -
op 1 begin
op 2 acall 1 svc - a
lookup 1 idle 1
op 2 cancel 1
reply 1 ok 0 ok
op 2 getrply 1 -
"""
JUDGE = """
def judge(ev):
    r = [e["res"] for e in ev if e.get("res") and e["res"][0] == "res"]
    if len(r) < 4 or r[3][2] != "ok": return "the descriptor of a call is gone although it was not cancelled"
"""
NEEDS = "a call within a transaction that the application tries to cancel, which is refused"
BREAKS = "the descriptor is released anyway, the reply can not be fetched and the transaction can never be committed"
