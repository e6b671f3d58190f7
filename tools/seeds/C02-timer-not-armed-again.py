PROPERTY = "C02"; DRIVER = "service"
EDITS = [("middleware/service/source/manager/state.cpp", """                  return entry.when >= now;
                  });

                  Deadline::Expired result;
""", """                  return entry.when >= now;
                  });

                  if( pivot == std::begin( m_entries))
                     return {};

                  Deadline::Expired result;
"""), ("middleware/service/source/manager/state.cpp", """                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                        return { next->when};
""", """                     // the timer for the first one is set, the rest is taken care of when it expires
                     m_entries.erase( std::begin( found));
""")]
EDITS = [(f, a.replace("                  return entry.when", "                     return entry.when", 1) if a.startswith("                  return entry") else a,
             b.replace("                  return entry.when", "                     return entry.when", 1) if b.startswith("                  return entry") else b) for f, a, b in EDITS]
EDITS = [(f, a.replace("                     return entry.when >= now;\n                  });", "return entry.when >= now;\n                  });"),
             b.replace("                     return entry.when >= now;\n                  });", "return entry.when >= now;\n                  });")) for f, a, b in EDITS]
SCRIPT = """
boot 0 linger svc:1:200:linger:-:- svc:2:450:linger:-:-
adv 1 1 -
adv 2 2 -
lookup 1 1 regular internal 0 1 0
lookup 2 2 regular internal 0 2 0
ack 1 0
sleep 1500
"""
JUDGE = """
def judge(ev):
    a = [e for e in ev if e["e"] == "sleep"][0]["out"]
    if ["error", "2", "timeout"] not in a: return "the caller is not told about the timeout"
"""
NEEDS = "two calls with deadlines, the one with the earlier is done in time, the other one is not, and nothing else happens"
BREAKS = "a call never times out"
