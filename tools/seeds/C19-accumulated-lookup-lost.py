PROPERTY = "C19"; DRIVER = "discovery"
EDITS = [("middleware/domain/source/discovery/handle.cpp", """                        // we keep the lookup-content to get possible local services/queues
                        state.accumulate.add( std::move( lookup_content));
                        return;""", """                        // the lookup-content are possible local services/queues
                        return;""")]
SCRIPT = """
boot none
register p1 l
register p2 d
direct r2 c
request 1 r1 forward a,b
lookedup p1.1 a
timeout
discovered p2.1 b
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["answer", "r1", "1", "a,b"] not in rows: return "what was found within the domain is not part of the answer"
"""
NEEDS = "a request of which a part is found within the domain, while a change of the topology is accumulated"
BREAKS = "what was found within the domain is asked for outside of it, and is not part of the answer"
