PROPERTY = "C19"; DRIVER = "discovery"
EDITS = [("middleware/domain/source/discovery/handle.cpp", """                  auto pendings = [ &]()
                  {
                     // no point of discovery with no content to discover...
                     if( ! request.content)""", """                  auto correlation = state.pending_content.add( request.content);

                  auto pendings = [ &]()
                  {
                     // no point of discovery with no content to discover...
                     if( ! request.content)"""),
 ("middleware/domain/source/discovery/handle.cpp", """                  auto remove_guard = execute::scope( [ &state, correlation = state.pending_content.add( std::move( request.content))]()
                  {
                     state.pending_content.remove( correlation);
                  });

                  struct Shared""", """                  struct Shared"""),
 ("middleware/domain/source/discovery/handle.cpp", """                  auto done_callback = [ &state, shared, remove_guard = std::move( remove_guard)]( auto failed)""", """                  auto done_callback = [ &state, shared]( auto failed)"""),
 ("middleware/domain/source/discovery/handle.cpp", """                  auto message_callback = [ &state, shared]( message::discovery::Reply reply)
                  {
                     Trace trace{ "discovery::handle::local:detail::send_aggregated_discovery message_callback"};
""", """                  auto message_callback = [ &state, shared, correlation]( message::discovery::Reply reply)
                  {
                     Trace trace{ "discovery::handle::local:detail::send_aggregated_discovery message_callback"};

                     // the providers have got the content now
                     state.pending_content.remove( correlation);
""")]
SCRIPT = """
boot none
register p1 d
register p2 d
api 1 r1 a,b
discovered p1.1 -
direct r2 -
timeout
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["explore", "r2", "a,b"] not in rows: return "the new connection is not asked for what is being discovered"
"""
NEEDS = "a new connection while a discovery, that one of the providers has answered, is under way"
BREAKS = "a new connection is not asked for what is being discovered at that time, and its services are never known"
