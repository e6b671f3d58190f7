PROPERTY = "C06"; DRIVER = "queue"; RUNS = 3
EDITS = [("middleware/queue/source/group/handle.cpp", """ transaction commit request failed");
                              reply.state = common::code::xa::resource_fail;
                           }

                           local::detail::persistent::reply( state, message.process, std::move( reply));

                           // handle::persist will take care of pending dequeue requests
""", """ transaction commit request failed");
                              reply.state = common::code::xa::resource_fail;
                           }

                           state.multiplex.send( message.process, reply);
""")]
SCRIPT = """
boot - 2:1:0
enq 2 1 10 0 0 10
commit 10
crash
deq 2 1 0 - 0 1
"""
JUDGE = """
def judge(ev):
    d = [e for e in ev if e["e"] == "deq"]
    if len(d) != 1: return "no answer"
    if d[0]["res"] != "msg": return "a committed message is gone after a crash"
"""
NEEDS = "a crash of the queue group right after it replied to a commit"
BREAKS = "committed messages are lost"
