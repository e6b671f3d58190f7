PROPERTY = "C01"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/state.cpp", """                  for( auto service_id : services.indexes())
                     for( auto instance_id : instance_ids)
                        services[ service_id].instances.remove( instance_id);
""", """                  for( auto service_id : services.indexes())
                     for( auto instance_id : instance_ids)
                        if( services[ service_id].instances.remove( instance_id))
                           return;
""")]
SCRIPT = """
boot 0 linger
adv 1 1,2,3 -
exit 1
lookup 1 1 regular internal 0 1 0
lookup 2 2 regular internal 0 2 0
lookup 3 3 regular internal 0 3 0
"""
JUDGE = """
def judge(ev):
    l = [e for e in ev if e["e"] == "lookup"]
    if len(l) != 3: return "the service manager is gone"
    for e in l:
        if any(o[0] == "lookup" for o in e["out"]): return "a lookup leads to an instance that is gone"
"""
NEEDS = "the exit of an instance that is the last one of one of its several services"
BREAKS = "services keep an instance that is gone"
