PROPERTY = "C18"; DRIVER = "domain"
EDITS = [("middleware/domain/source/manager/task/create.cpp", """                           using Enum = decltype( instance.state());
                           return algorithm::compare::any( instance.state(), Enum::running, Enum::exit, Enum::disabled, Enum::error);
""", """                           using Enum = decltype( instance.state());
                           // only what is about to start is pending, the rest is on its way
                           return ! algorithm::compare::any( instance.state(), Enum::scale_out, Enum::spawned);
""")]
SCRIPT = """
boot A,B:A s1:1:0:A,s2:1:0:B
connect p1 -
connect p2 -
scale 4 s2=0
kill p2
"""
JUDGE = """
def judge(ev):
    at = [i for i, e in enumerate(ev) if ["done", "4"] in e.get("out", [])]
    gone = [i for i, e in enumerate(ev) if ["exit", "p2"] in e.get("out", [])]
    if not at or not gone or at[0] < gone[0]: return "the scaling is reported as done before the process that was told to stop has exited"
"""
NEEDS = "processes that take their time to stop, when they are scaled in or at shutdown"
BREAKS = "scaling is reported as done, and groups that others depend on are stopped, while processes still run; the manager ends before they do"
