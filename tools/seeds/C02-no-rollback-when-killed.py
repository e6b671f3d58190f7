PROPERTY = "C02"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/handle.cpp", """                  state.timeout_instances.push_back( instance.process.pid);
                  local::error::reply( state, caller, common::code::xatmi::timeout);
""", """                  if( ! common::service::execution::timeout::contract::fatal( state.services[ entry.service].timeout.contract.value_or( common::service::execution::timeout::contract::Type::linger)))
                     state.timeout_instances.push_back( instance.process.pid);
                  local::error::reply( state, caller, common::code::xatmi::timeout);
""")]
SCRIPT = """
boot 0 linger svc:1:150:kill:-:-
adv 1 1 -
lookup 1 1 regular internal 0 1 0
sleep 300
ack 1 3
"""
JUDGE = """
def judge(ev):
    a = [e for e in ev if e["e"] == "ack"][0]["out"]
    if ["rollback", "3"] not in a: return "what was done after the timeout is not rolled back"
"""
NEEDS = "a call in transaction that times out with the contract kill, and the instance finishes before it is killed"
BREAKS = "work done in the transaction after the caller was told about the timeout is left behind"
