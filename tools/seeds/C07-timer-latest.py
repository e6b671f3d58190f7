PROPERTY = "C07"; DRIVER = "queue"
EDITS = [("middleware/queue/source/group/handle.cpp", "auto earliest_future = algorithm::min( std::get< 1>( split), []( auto& l, auto& r){ return l.when < r.when;});", "auto earliest_future = algorithm::max( std::get< 1>( split), []( auto& l, auto& r){ return l.when < r.when;});")]
SCRIPT = """
boot - 2:1:0 4:1:0
enq 2 1 0 0 3000 10
enq 4 2 0 0 60 10
deq 2 1 0 - 1 1
deq 4 2 0 - 1 2
sleep 1200
quiet
"""
JUDGE = """
def judge(ev):
    t = [e for e in ev if e.get("w") == 2 and e.get("m") == 2]
    if not t or t[0]["t1"] > 1700: return "the waiter is not served when the message becomes available"
"""
NEEDS = "two blocking dequeues that wait for messages of different queues, the first for the later time"
BREAKS = "a waiter is served long after its message is available"
