PROPERTY = "C19"; DRIVER = "discovery"
EDITS = [("middleware/common/include/common/message/coordinate.h", """                  algorithm::container::erase( m_pending, std::begin( found));

                  if( m_message_callback( message) == Directive::done)
                     return Directive::done;

                  return is_done() ? Directive::done : Directive::pending;""", """                  algorithm::container::erase( m_pending, std::begin( found));

                  if( m_message_callback( message) == Directive::done)
                     return Directive::done;

                  // still waiting for others
                  if( ! m_pending.empty())
                     return Directive::pending;

                  return is_done() ? Directive::done : Directive::pending;""")]
SCRIPT = """
boot none
register p1 d
register p2 d
api 1 r1 a,b
gone p1 ipc
discovered p2.1 b
shutdown
"""
JUDGE = """
def judge(ev):
    rows = [o for e in ev for o in e.get("out", [])]
    if ["answer", "r1", "1", "b"] not in rows: return "the request is never answered"
    if not any(e.get("gone") for e in ev): return "the process does not end"
"""
NEEDS = "one provider dies, and then the last of the others answers without all that was asked for"
BREAKS = "the request is never answered, and the discovery never ends"
