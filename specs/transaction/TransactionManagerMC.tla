------------------------ MODULE TransactionManagerMC ------------------------
(* TransactionManager with its surroundings, for exhaustive checks of small   *)
(* instances: resources vote, fail and die, owners die.                       *)
EXTENDS TransactionManager

CONSTANTS Instances, Exts, Votes, Ends, MaxSteps

VARIABLES s, steps,
          asked,      \* what the callers wait for: [kind, id]
          told,       \* final answers: seq
          sent,       \* second phase requests that have been sent: [k, t, rm]
          votes,      \* [t, rm, code]
          id
vars == << s, steps, asked, told, sent, votes, id>>

GInst == [ i \in Instances |-> i \div 10]
Rms == { i \div 10 : i \in Instances}
T == {1}
Init == s = Empty(GInst) /\ steps = 0 /\ asked = {} /\ told = <<>> /\ sent = {} /\ votes = {} /\ id = 1

Final(o) == \/ o[1] = "commit" /\ o[4] # "prepare"
            \/ o[1] \in {"rollback", "xprepare", "xcommit", "xrollback"}
RECURSIVE Seq1(_)
Seq1(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN << x>> \o Seq1(X \ {x})
Record(r, who) ==
   /\ s' = [r.s EXCEPT !.held = {}]
   /\ asked' = asked \cup who
   /\ told' = told \o Seq1({ << o[1], o[2]>> : o \in { p \in (r.out \cup r.s.held) : Final(p)}})
   /\ sent' = sent \cup { [k |-> o[3], t |-> o[4], one |-> o[6], to |-> o[2]] : o \in { p \in r.out : p[1] = "req" /\ p[3] # "prepare"}}
   /\ UNCHANGED id
Step == steps < MaxSteps /\ steps' = steps + 1
Ask(kind, R) == \E r \in R : /\ s' = [r.s EXCEPT !.held = {}] /\ asked' = asked \cup {<< kind, S(id)>>}
                             /\ told' = told \o Seq1({ << o[1], o[2]>> : o \in { p \in (r.out \cup r.s.held) : Final(p)}})
                             /\ sent' = sent \cup { [k |-> o[3], t |-> o[4], one |-> o[6], to |-> o[2]] : o \in { p \in r.out : p[1] = "req" /\ p[3] # "prepare"}}
                             /\ id' = id + 1 /\ UNCHANGED votes

DoInvolve == \E t \in T, b \in {1, 2}, m \in Rms : \E r \in Involved(s, t, b, b, 0, {m}, FALSE) : Record(r, {}) /\ UNCHANGED votes
DoXInvolve == \E t \in T, e \in Exts : (e \in s.ext \/ e \notin s.known) /\ \E r \in XInvolved(s, e, t, 1, 1) : Record(r, {}) /\ UNCHANGED votes
DoCommit == \E t \in T : Ask("commit", Commit(s, t, 1, 1, id, {}))
DoRollback == \E t \in T : Ask("rollback", Rollback(s, t, 1, 1, id, {}))
DoXPrepare == \E t \in T : Ask("xprepare", XPrepare(s, t, id))
DoXCommit == \E t \in T : (\A v \in votes : v.t = t => v.code \in {"ok", "read_only"}) /\ Ask("xcommit", XCommit(s, t, id))
DoXRollback == \E t \in T : Ask("xrollback", XRollback(s, t, id))
Codes(q) == IF q.k = "prepare" THEN Votes ELSE Ends
DoReply == \/ \E i \in DOMAIN s.inst : \E q \in s.inst[i].busy : \E c \in Codes(q) :
                \E r \in Reply(s, i, q, c) : Record(r, {}) /\ votes' = votes \cup (IF q.k = "prepare" THEN {[t |-> q.t, rm |-> q.rm, b |-> q.b, code |-> c]} ELSE {})
           \/ \E q \in s.at : \E c \in Codes(q) :
                \E r \in Reply(s, 0, q, c) : Record(r, {}) /\ votes' = votes \cup (IF q.k = "prepare" THEN {[t |-> q.t, rm |-> q.rm, b |-> q.b, code |-> c]} ELSE {})
DoDie == \E i \in DOMAIN s.inst : \E r \in Die(s, i) : Record(r, {}) /\ UNCHANGED votes
DoXGone == \E e \in s.ext : \E r \in XGone(s, e) : Record(r, {}) /\ UNCHANGED votes
DoOwner == \E c \in {1, 2} : \E r \in OwnerGone(s, c) : Record(r, {}) /\ UNCHANGED votes

(* a transaction is used once *)
Fresh == (told = <<>> /\ sent = {}) \/ 1 \in DOMAIN s.tx
Next == Step /\ ((Fresh /\ (DoInvolve \/ DoXInvolve \/ DoCommit \/ DoRollback \/ DoXPrepare \/ DoXCommit \/ DoXRollback)) \/ DoReply \/ DoDie \/ DoXGone \/ DoOwner)
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s)
Ends2 == Alive2(s)
(* never both outcomes *)
Atomic == ~\E x, y \in sent : x.t = y.t /\ x.k = "commit" /\ y.k = "rollback"
(* a commit of several follows only when everyone has voted for it *)
Voted == \A x \in sent : x.k = "commit" /\ x.one = "-" => \A v \in votes : S(v.t) = x.t => v.code \in {"ok", "read_only"}
(* whoever asks is answered once, and if not yet, there is something to wait for *)
Once == \A a \in asked : Cardinality({ k \in DOMAIN told : told[k] = a}) <= 1
Answered == \A a \in asked : (\E k \in DOMAIN told : told[k] = a) \/ \E j \in s.jobs : << j.to.kind, S(j.to.id)>> = a
=============================================================================
