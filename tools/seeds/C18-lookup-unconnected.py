PROPERTY = "C18"; DRIVER = "domain"
EDITS = [("middleware/domain/source/manager/handle.cpp", """                              if( reply.process || reply_direct( state, message))
""", """                              if( reply.process.pid || reply_direct( state, message))
""")]
SCRIPT = """
boot A s1:1:0:A
lookup 2 r1 p1 wait
connect p1 -
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["found", "r1", "2", "p1"] not in rows: return "the one who waits for a process is not told when it has connected"
"""
NEEDS = "a lookup that waits for a server that has been started but has not connected yet"
BREAKS = "the lookup is answered at once, with a process that can't be reached"
