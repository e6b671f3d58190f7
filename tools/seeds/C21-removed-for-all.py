PROPERTY = "C21"; DRIVER = "queue_manager"
EDITS = [("middleware/queue/source/manager/state.cpp", """               if( common::algorithm::container::erase( found->second, message.process.ipc).empty())
                  queues.erase( name);
""", """            {
               common::algorithm::container::erase( found->second, message.process.ipc);

               if( algorithm::none_of( found->second, []( auto& queue){ return queue.local();}))
                  queues.erase( name);
            }
""")]
SCRIPT = """
boot
advertise o1 0 qx -
advertise o2 1 qx -
advertise o1 0 - qx
lookup 5 r1 qx direct internal any
discovered 5
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["reply", "r1", "5", "qx=o2:2"] not in rows: return "the queue is not found although an outbound has it"
"""
NEEDS = "two outbounds that have advertised the same queue, and one that takes it back"
BREAKS = "the queue of the other outbound is forgotten: those who look it up are told that there is none"
