PROPERTY = "C08"; DRIVER = "transaction"
EDITS = [("middleware/transaction/include/transaction/manager/state.h", """               for( auto& reply : replies)
                  if( auto found = common::algorithm::find( branches, reply.trid))
                     found->remove( reply.resource);
""", """               for( auto& reply : replies)
                  for( auto& branch : branches)
                     branch.remove( reply.resource);
""")]
SCRIPT = """
boot 1:2 2:1
inbound 1
involve 1 1 1 1 0
involve 2 1 2 1 0
xprepare 3 1 0
reply prepare 1 1 1 read_only
reply prepare 1 1 2 ok
xcommit 4 1 0
reply commit 1 1 2 ok
"""
JUDGE = """
def judge(ev):
    commits = [o for e in ev for o in e["out"] if o[0] == "req" and o[2] == "commit"]
    if not commits: return "a branch that is prepared is never asked to commit"
"""
NEEDS = "the manager takes part in a transaction of another domain with two branches at the same resource, where one branch votes read-only and the other one is prepared"
BREAKS = "the prepared branch is forgotten: it is neither committed nor rolled back, while the other domain is told that the commit is done"
