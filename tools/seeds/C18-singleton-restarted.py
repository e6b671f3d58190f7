PROPERTY = "C18"; DRIVER = "domain"
A = """         // Remove from singletons
         auto is_singleton = [ pid]( auto& pair){ return pair.second == pid;};

         if( auto found = algorithm::find_if( singletons, is_singleton))
         {
            log::line( log, "remove singleton: ", found->second);

            // Try to remove ipc-queue (no-op if it's removed already)
            local::ipc::remove( found->second.ipc);

            singletons.erase( std::begin( found));
         }

"""
EDITS = [("middleware/domain/source/manager/state.cpp", A, ""),
         ("middleware/domain/source/manager/state.cpp", """         // check if it's a grandchild
         if( auto found = algorithm::find( grandchildren, pid))
         {
            log::line( log, "remove grandchild""", A + """         // check if it's a grandchild
         if( auto found = algorithm::find( grandchildren, pid))
         {
            log::line( log, "remove grandchild""")]
SCRIPT = """
boot A s1:1:1:A
connect p1 x
kill p1
connect p2 x
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["connected", "p2", "1"] not in rows: return "the one that replaces the singleton is denied"
"""
NEEDS = "a server that is a singleton, is configured to restart, and dies"
BREAKS = "the dead process is still the singleton: the one that replaces it is denied, and lookups lead to the dead"
