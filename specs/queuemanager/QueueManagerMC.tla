--------------------------- MODULE QueueManagerMC ---------------------------
(* Every behaviour of QueueManager, with few lookups and outbounds.            *)
EXTENDS QueueManager

CONSTANTS Ids, LNames, Outs, MaxSteps
VARIABLES s, n, told
vars == << s, n, told>>

Moves ==
  { <<"lookup", i, "r" \o i, nm, sem, req, "enqueue">> : i \in Ids \ DOMAIN told, nm \in LNames, sem \in {"direct", "wait"}, req \in {"internal"}}
  \cup { <<"lookup", i, "r" \o i, nm, "direct", "external", "dequeue">> : i \in Ids \ DOMAIN told, nm \in LNames}
  \cup { <<"discovered", l.id>> : l \in Range(s.pend)} \cup { <<"discard", l.id, l.who>> : l \in Range(s.pend)}
  \cup { <<"advertise", o, k, {[name |-> nm, en |-> e, de |-> TRUE]}, {}>> : o \in {x \in Outs : x \notin s.remotes}, k \in {0, 1}, nm \in LNames, e \in BOOLEAN}
  \cup { <<"instance", o, k>> : o \in s.remotes, k \in {0, 2}}
  \cup { <<"gone", w, h>> : w \in s.remotes \cup s.groups, h \in {"ipc", "exit"}}
  \cup (IF s.lvl = "running" THEN { <<"shutdown">>, <<"hold", "A">>} ELSE {})
Replies(t, i) == SelectSeq(t.rows, LAMBDA r : r[1] \in {"reply"} /\ r[3] = i)
Init == s = Init0 /\ n = 0 /\ told = << >>
Next == /\ n < MaxSteps /\ ~s.gone /\ n' = n + 1
        /\ \E w \in Moves : \E t \in {After(s, w)} :
             /\ s' = t
             /\ told' = LET all == (IF w[1] = "lookup" THEN (w[2] :> 0) ELSE << >>) @@ told
                        IN [i \in DOMAIN all |-> all[i] + Len(Replies(t, i)) + (IF w[1] = "discard" /\ w[2] = i THEN 1 ELSE 0)]
Spec == Init /\ [][Next]_vars
Inv == TypeInv(s)
Once == \A i \in DOMAIN told : told[i] = (IF \E l \in Range(s.pend) : l.id = i THEN 0 ELSE 1)
(* an outbound is only answered when no queue of the domain would do *)
Local == \A r \in Range(s.rows) : r[1] = "reply" =>
           \A p \in s.q, o \in Outs, k \in 1..3 : (p.order = 0 /\ p.en /\ p.de) => p.name \o "=" \o o \o ":" \o ToString(k) \notin r[4]
=============================================================================
