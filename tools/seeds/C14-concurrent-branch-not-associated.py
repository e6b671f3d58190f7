PROPERTY = "C14"; DRIVER = "gateway_in"
EDITS = [("middleware/gateway/source/group/inbound/state.cpp", """               auto gtrid = common::transaction::id::range::global( branched_trid);

               if( auto found = algorithm::find( m_transactions, gtrid))
               {
                  if( ! algorithm::contains( found->second.descriptors, descriptor))
                     found->second.descriptors.push_back( descriptor);
               }
               else
               {
                  m_transactions.emplace( gtrid, Association{ descriptor, branched_trid});
               }
""", """               // no-op if the branch is known already
               m_transactions.try_emplace( common::transaction::id::range::global( branched_trid), Association{ descriptor, branched_trid});
""")]
SCRIPT = """
boot
open 1 4
open 3 4
call 1 1 s1 1 0
call 3 2 s2 1 0
branched 1 1 1
branched 3 2 1
lookedup 1 1 idle s1 sv1
lookedup 3 2 idle s2 sv2
reply 1 1 OK
reply 3 2 OK
remove 1
dreply 3
settle
"""
JUDGE = """
def judge(ev):
    for o in (o for e in ev for o in e["out"]):
        if o[0].startswith("tcp3") and "closed" in o: return "the connection left although a transaction it takes part in is not resolved"
"""
NEEDS = "two connections ask for the branch of the same transaction at the same time, and then the listener is removed before the transaction is resolved"
BREAKS = "the second connection leaves with an unresolved transaction"
