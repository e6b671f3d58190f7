PROPERTY = "C17"; DRIVER = "transport"
EDITS = [("middleware/common/source/communication/ipc.cpp", """                           return ! complete.complete() 
                              && transport.type() == complete.type()
                              && transport.message.header.correlation == complete.correlation();
                        });
""", """                           return ! complete.complete() 
                              && transport.message.header.correlation == complete.correlation();
                        });
"""), ("middleware/common/source/communication/ipc.cpp", """                              return ! complete.complete()
                                 && transport.type() == complete.type()
                                 && transport.message.header.correlation == complete.correlation();
                           });
""", """                              return ! complete.complete()
                                 && transport.message.header.correlation == complete.correlation();
                           });
""")]
SCRIPT = """
boot
open 1
send 1 1 1 1 100000 -
send 2 1 1 2 30000 -
recv 1
pump 2
pump 1
recv 1
pump 2
pump 1
recv 1
settle
"""
JUDGE = """
def judge(ev):
    if any(e["e"] in ("crashed", "error") for e in ev): return "the device fails"
    got = [o for e in ev for o in e["out"] if o[0] == "got"]
    if any(o[5] != "ok" for o in got): return "a message with the contents of another"
    if sorted(o[4] for o in got) != [30000, 100000]: return "messages are lost: %s" % got
"""
NEEDS = "two processes send messages of different types with the same correlation to a third, both in several parts that arrive interleaved"
BREAKS = "the parts of one message end up in the other"
