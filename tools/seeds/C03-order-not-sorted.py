PROPERTY = "C03"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/state.cpp", """               if( auto found = algorithm::find( m_concurrent, id))
                  found->order = order;

               algorithm::stable_sort( m_concurrent);
               prioritize();
""", """               if( auto found = algorithm::find( m_concurrent, id))
                  if( std::exchange( found->order, order) > order)
                     algorithm::stable_sort( m_concurrent);

               prioritize();
""")]
SCRIPT = """
boot 0 linger
cadv 21 1 1:0 -
cadv 22 2 1:0 -
corder 21 3
lookup 1 1 regular internal 0 1 0
"""
JUDGE = """
def judge(ev):
    a = [e for e in ev if e["e"] == "lookup"][0]["out"]
    if [o[3] for o in a] != ["22"]: return "the lookup does not lead to the connection with the best order"
"""
NEEDS = "a connection whose order gets worse, while there is another connection with the service"
BREAKS = "the configured order of connections is not respected"
