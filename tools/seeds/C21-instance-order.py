PROPERTY = "C21"; DRIVER = "queue_manager"
EDITS = [("middleware/queue/source/manager/state.cpp", """               if( auto found = algorithm::find( pair.second, message.process.ipc))
                  found->order = order;

               algorithm::stable_sort( pair.second);
""", """               // only those that actually change, needs to be sorted again
               auto found = algorithm::find( pair.second, message.process.ipc);

               if( found && std::exchange( found->order, order) > order)
                  algorithm::stable_sort( pair.second);
""")]
SCRIPT = """
boot
advertise o1 0 qx -
advertise o2 1 qx -
instance o1 4
lookup 5 r1 qx direct internal any
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["reply", "r1", "5", "qx=o2:2"] not in rows: return "the lookup does not lead to the outbound with the best order"
"""
NEEDS = "two outbounds with the same queue, of which the preferred gets a worse order"
BREAKS = "lookups lead to an outbound although there is one that is preferred"
