PROPERTY = "C17"; DRIVER = "transport"
EDITS = [("middleware/common/include/common/communication/device.h", """            else
            {
               if( ! algorithm::find( m_discarded, correlation))
                  m_discarded.push_back( correlation);
            }
""", """            else if( ! complete)
            {
               if( ! algorithm::find( m_discarded, correlation))
                  m_discarded.push_back( correlation);
            }
""")]
SCRIPT = """
boot
open 1
send 1 1 1 1 200000 -
recv 1
discard 1 1
pump 1
recv 1
pump 1
recv 1
settle
"""
JUDGE = """
def judge(ev):
    if any(o[0] == "got" for e in ev for o in e["out"]): return "a message that was discarded while half of it had arrived is delivered"
"""
NEEDS = "a message larger than the queue of the socket, that is discarded when a part of it has arrived"
BREAKS = "the message is delivered when the rest of it arrives, although it was discarded"
