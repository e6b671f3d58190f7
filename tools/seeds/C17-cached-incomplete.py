PROPERTY = "C17"; DRIVER = "transport"
EDITS = [("middleware/common/include/common/communication/device.h", """            auto is_complete = []( auto& message){ return message.complete();};
""", """            auto is_complete = []( auto& message){ return message.type() != common::message::Type::absent_message;};
""")]
SCRIPT = """
boot
open 1
send 1 1 1 1 200000 -
recv 1
rcorr 1 7
cached 1
pump 1
recv 1
settle
"""
JUDGE = """
def judge(ev):
    for e in ev:
        for o in e["out"]:
            if o[0] == "got" and (o[4] != 200000 or o[5] != "ok"): return "a message is delivered before all of it has arrived"
            if o[0] in ("crashed", "error"): return "the device fails"
    if any(e["e"] in ("crashed", "error") for e in ev): return "the device fails"
"""
NEEDS = "the first cached message is taken when only a part of the message has arrived"
BREAKS = "the message is delivered with the contents that has arrived so far"
