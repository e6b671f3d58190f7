PROPERTY = "C19"; DRIVER = "discovery"
EDITS = [("middleware/common/include/common/message/coordinate.h", """                     for( auto& correlation : correlations)
                         m_lookup.erase( correlation);

                     return entry->done();""", """                     // (when the entry is done, its correlations are not needed)
                     if( ! entry->done())
                        return false;

                     for( auto& pending : entry->pending())
                        m_lookup.erase( pending.correlation);

                     return true;""")]
SCRIPT = """
boot none
register p1 l
register p2 d
request 1 r1 local a
gone p1 exit
shutdown
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["answer", "r1", "1", "-"] not in rows: return "the request is never answered"
    if not any(e.get("gone") for e in ev): return "the process does not end"
"""
NEEDS = "a provider that dies while it is asked for the lookup, or for what it knows"
BREAKS = "the correlation of the question is kept for good (the pendings have been moved to the callback), the discovery does not end at shutdown"
