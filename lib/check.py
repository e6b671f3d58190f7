"""check.py <property> <quick|thorough>: entry of every registered check"""
import sys
sys.dont_write_bytecode = True
import vf, checks_queue, checks_service, checks_transaction, checks_application, checks_gateway, checks_transport, checks_forward, checks_discovery, checks_queuemanager, checks_domain

LEVEL = "model_checking"
CHECKS = {}
for p in checks_queue.PROFILES: CHECKS[p] = (checks_queue.check(p), ["queue"])
for p in checks_service.PROFILES: CHECKS[p] = (checks_service.check(p), ["service"])
for p in checks_transaction.PROFILES: CHECKS[p] = (checks_transaction.check(p), ["transaction"])
for p in checks_application.PROFILES: CHECKS[p] = (checks_application.check(p), ["application"])
CHECKS["C13"] = (checks_gateway.c13, ["gateway_out"])
CHECKS["C14"] = (checks_gateway.c14, ["gateway_in"])
CHECKS["C17"] = (checks_transport.c17, ["transport"])
CHECKS["C20"] = (checks_forward.c20, ["queue_forward"])
CHECKS["C21"] = (checks_queuemanager.c21, ["queue_manager"])
CHECKS["C18"] = (checks_domain.c18, ["domain"])
CHECKS["C19"] = (checks_discovery.c19, ["discovery"])

if __name__ == "__main__":
    prop, tier = sys.argv[1], sys.argv[2]
    body, drivers = CHECKS[prop]
    vf.main(prop, tier, LEVEL, body, drivers)
