PROPERTY = "C23"; DRIVER = "application"
EDITS = [("middleware/common/include/common/server/handle/service.h", """                  case Enum::ok:
                     break;
                  case Enum::rollback:
                  case Enum::timeout:
                  case Enum::error:
""", """                  case Enum::ok:
                  case Enum::timeout:
                     break;
                  case Enum::rollback:
                  case Enum::error:
""")]
SCRIPT = """
boot server -
serve 500 join 400 0 1
op 1 call svc - a
lookup 1 idle 1
reply 1 ok 0 timeout
op 1 return success 0 a
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if o[0] == "reply" and o[3] == "ok": return "the service is reported as successful although its transaction has timed out"
"""
NEEDS = "a service in the transaction of the caller, where a nested call reports that the transaction has timed out and the service succeeds nevertheless"
BREAKS = "the caller is told that the service succeeded"
