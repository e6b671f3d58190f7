PROPERTY = "C21"; DRIVER = "queue_manager"
EDITS = [("middleware/queue/source/manager/state.cpp", """                  return common::algorithm::container::erase( pair.second, id).empty();
""", """                  if( auto found = algorithm::find( pair.second, id))
                     pair.second.erase( std::begin( found), std::end( pair.second));

                  return pair.second.empty();
""")]
SCRIPT = """
boot
advertise o1 0 qx -
advertise o2 1 qx,qy -
gone o1 ipc
lookup 5 r1 qx direct internal any
discovered 5
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["reply", "r1", "5", "qx=o2:2"] not in rows: return "the queue is not found although an outbound has it"
"""
NEEDS = "an outbound that is lost while another, with a worse order, has the same queue"
BREAKS = "the queue of the other outbound is forgotten as well"
