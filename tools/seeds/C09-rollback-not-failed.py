PROPERTY = "C09"; DRIVER = "transaction"
EDITS = [("middleware/transaction/source/manager/handle.cpp", """                        common::log::line( verbose::log, "found external process exit: ", resource);
                        
                        state.coordinate.failed( resource.id);
""", """                        common::log::line( verbose::log, "found external process exit: ", resource);
                        
                        // a rollback does not depend on the resource any more
                        state.coordinate.prepare.failed( resource.id);
                        state.coordinate.commit.failed( resource.id);
""")]
SCRIPT = """
boot 1:1
xinvolve 91 1 1
rollback 5 1 1 1
reply rollback 1 1 1 ok
xgone 91 1
settle
"""
JUDGE = """
def judge(ev):
    if not [o for e in ev for o in e["out"] if o[0] == "rollback"]: return "the rollback is never answered"
"""
NEEDS = "the process of a resource in another process ends while it is asked to roll back"
BREAKS = "the caller of rollback waits forever"
