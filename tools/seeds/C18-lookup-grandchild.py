PROPERTY = "C18"; DRIVER = "domain"
EDITS = [("middleware/domain/source/manager/handle.cpp", """                        log::line( log, "added process: ", message.information.handle, " to ", *server);
                     }
                     else // we assume it's a grandchild
                        state.grandchildren.emplace_back( message.information.handle, std::move( message.information.alias), std::move( message.information.path));

                     algorithm::container::trim( state.pending.lookup, algorithm::remove_if( state.pending.lookup, process::detail::lookup::request( state)));

""", """                        log::line( log, "added process: ", message.information.handle, " to ", *server);

                        // someone might wait for the server
                        algorithm::container::trim( state.pending.lookup, algorithm::remove_if( state.pending.lookup, process::detail::lookup::request( state)));
                     }
                     else // we assume it's a grandchild
                        state.grandchildren.emplace_back( message.information.handle, std::move( message.information.alias), std::move( message.information.path));

""")]
SCRIPT = """
boot A e1:1:0:A
lookup 2 r1 x wait
connect p1 x
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["found", "r1", "2", "p1"] not in rows: return "the one who waits for the singleton is not told when it has connected"
"""
NEEDS = "a lookup that waits for a process that is not a server of the domain, but started by an executable"
BREAKS = "the lookup is not answered when the process connects"
