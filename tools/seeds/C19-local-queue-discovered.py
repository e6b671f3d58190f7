PROPERTY = "C19"; DRIVER = "discovery"
EDITS = [("middleware/domain/source/discovery/handle.cpp", """                     erase_if( a.services, b.services);
                     erase_if( a.queues, b.queues);

                     return a;""", """                     erase_if( a.services, b.services);
                     if( ! a.services.empty())
                        erase_if( a.queues, b.queues);

                     return a;""")]
SCRIPT = """
boot none
register p1 l
register p2 d
request 1 r1 forward a,q,r
lookedup p1.1 a,q
discovered p2.1 r
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["discover", "p2", "p2.1", "r"] not in rows: return "what is found within the domain is discovered outside of it"
"""
NEEDS = "a request where all services, and some of the queues, are found within the domain"
BREAKS = "a queue that is local is discovered in other domains"
