------------------------- MODULE TransactionManager -------------------------
(* The transaction manager: transactions with branches, resource managers    *)
(* behind proxies (instances that handle one request at a time), external    *)
(* resources (other domains, queue groups), and the manager as a resource of *)
(* another transaction manager.                                              *)
(*                                                                           *)
(* Operators take a state and give the set of possible                       *)
(* [s |-> new state, out |-> set of messages that are sent].                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S(x) == ToString(x)
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Range(q) == { q[k] : k \in DOMAIN q}
RECURSIVE Csv(_)
Csv(X) == IF X = {} THEN "" ELSE LET m == SetMin(X) IN S(m) \o (IF X = {m} THEN "" ELSE ",") \o Csv(X \ {m})
Without(f, D) == [ x \in DOMAIN f \ D |-> f[x]]

(* ------------------------------------------------------------------ codes *)
Severities == << "heuristic_hazard", "heuristic_mix", "heuristic_commit", "heuristic_rollback", "resource_fail", "resource_error",
                 "rollback_integrity", "rollback_communication", "rollback_unspecified", "rollback_other", "rollback_deadlock",
                 "protocol", "rollback_protocoll", "rollback_timeout", "rollback_transient", "argument", "no_migrate", "outside",
                 "outstanding_async", "retry", "duplicate_xid", "invalid_xid", "ok", "read_only">>
Rank(c) == CHOOSE k \in DOMAIN Severities : Severities[k] = c
Severest(C) == Severities[SetMin({ Rank(c) : c \in C})]
(* a resource that knows nothing of the transaction has nothing to do *)
Normal(c) == IF c = "invalid_xid" THEN "read_only" ELSE c
Tx(c0) == LET c == Normal(c0) IN
   CASE c \in {"ok", "read_only"} -> "ok"
     [] c \in {"heuristic_commit", "heuristic_rollback", "heuristic_mix"} -> "mixed"
     [] c \in {"resource_error", "resource_fail"} -> "fail"
     [] c \in {"argument", "protocol"} -> "protocol"
     [] c \in {"retry", "outstanding_async", "duplicate_xid"} -> "argument"
     [] c = "outside" -> "outside"
     [] OTHER -> "hazard"

(* ------------------------------------------------------------------ state *)
External(rm) == rm > 90
Empty(instances) ==      \* instance -> rm
   [ tx |-> <<>>,                                                 \* t -> [stage, br]
     rms |-> { instances[i] : i \in DOMAIN instances},
     inst |-> [ i \in DOMAIN instances |-> [rm |-> instances[i], busy |-> {}]],
     ext |-> {},                                                  \* external resources
     known |-> {},                                                \* external resources that have been in use
     at |-> {},                                                   \* requests they have
     pend |-> <<>>,                                               \* requests that wait for an instance
     jobs |-> {},                                                 \* phases in progress
     held |-> {}]                                                 \* answers that wait for the log

Res(s, out) == [s |-> s, out |-> out]
Bind(R, F(_)) == UNION { { Res(y.s, x.out \cup y.out) : y \in F(x.s)} : x \in R}

Branches(s, t) == IF t \in DOMAIN s.tx THEN s.tx[t].br ELSE <<>>
Resources(s, t) == UNION { { [rm |-> m, b |-> Branches(s, t)[k].b] : m \in Branches(s, t)[k].rs} : k \in DOMAIN Branches(s, t)}
Purged(br) == SelectSeq(br, LAMBDA x : x.rs # {})
Stage(s, t) == s.tx[t].stage
SetStage(s, t, g) == [s EXCEPT !.tx[t].stage = g]

(* adds a branch and what is involved in it; own: the process that the branch belongs to *)
Involve(s, t, b, own, rs) ==
   LET br == Branches(s, t)
       at == { k \in DOMAIN br : br[k].b = b}
       new == IF at = {} THEN Append(br, [b |-> b, own |-> own, rs |-> rs])
              ELSE [br EXCEPT ![CHOOSE k \in at : TRUE].rs = @ \cup rs]
   IN [s EXCEPT !.tx = (t :> [stage |-> IF t \in DOMAIN s.tx THEN s.tx[t].stage ELSE "involved", br |-> new]) @@ @]
Purge(s, t) == [s EXCEPT !.tx[t].br = Purged(@)]

Remove(s, t) == Res([s EXCEPT !.tx = Without(@, {t})], {<< "disassociate", S(t)>>})

(* --------------------------------------------------------------- requests *)
Idle(s, rm) == { i \in DOMAIN s.inst : s.inst[i].rm = rm /\ s.inst[i].busy = {}}
Alive(s, rm) == \E i \in DOMAIN s.inst : s.inst[i].rm = rm
ReqOut(to, q) == << "req", S(to), q.k, S(q.t), S(q.b), IF q.one THEN "one" ELSE "-">>

(* -> set of [s, out, lost] *)
SendOne(s, q) ==
   IF External(q.rm)
   THEN IF q.rm \in s.ext THEN {[s |-> [s EXCEPT !.at = @ \cup {q}], out |-> {ReqOut(q.rm, q)}, lost |-> {}]}
        ELSE {[s |-> s, out |-> {}, lost |-> {q}]}
   ELSE IF Idle(s, q.rm) # {} THEN { [s |-> [s EXCEPT !.inst[i].busy = {q}], out |-> {ReqOut(i, q)}, lost |-> {}] : i \in Idle(s, q.rm)}
   ELSE IF Alive(s, q.rm) THEN {[s |-> [s EXCEPT !.pend = Append(@, q)], out |-> {}, lost |-> {}]}
   ELSE {[s |-> s, out |-> {}, lost |-> {q}]}
RECURSIVE SendAll(_, _)
SendAll(s, qs) ==      \* qs: sequence
   IF qs = <<>> THEN {[s |-> s, out |-> {}, lost |-> {}]}
   ELSE UNION { { [s |-> y.s, out |-> x.out \cup y.out, lost |-> x.lost \cup y.lost] : y \in SendAll(x.s, Tail(qs))} : x \in SendOne(s, Head(qs))}

(* the orders in which a set is asked for: it is of importance only for those that share instances *)
RECURSIVE Perms(_), Orders(_)
Perms(X) == IF X = {} THEN {<<>>} ELSE UNION { { << x>> \o o : o \in Perms(X \ {x})} : x \in X}
Orders(X) ==
   IF X = {} THEN {<<>>}
   ELSE LET m == SetMin({ x.rm : x \in X}) IN
        { a \o b : a \in Perms({ x \in X : x.rm = m}), b \in Orders({ x \in X : x.rm # m})}
Requests(t, kind, X, one) == { [ k \in DOMAIN o |-> [k |-> kind, rm |-> o[k].rm, t |-> t, b |-> o[k].b, one |-> one]] : o \in Orders(X)}

(* ----------------------------------------------------------------- phases *)
Code(job, base) ==
   LET lost == job.lost # {} IN
   IF lost /\ Cardinality(job.all) = 1 THEN Severest({"resource_fail", base})
   ELSE LET worst == CASE job.k = "prepare" -> "resource_fail" [] job.k = "commit" -> "heuristic_commit" [] OTHER -> "heuristic_rollback"
        IN Severest({base} \cup { g.code : g \in job.got} \cup (IF lost THEN {worst} ELSE {}))

Answer(to, code, stage) ==
   CASE to.kind = "commit" -> {<< "commit", S(to.id), Tx(code), stage>>}
     [] to.kind = "rollback" -> {<< "rollback", S(to.id), Tx(code)>>}
     [] to.kind = "self" -> {}
     [] OTHER -> {<< to.kind, S(to.id), Normal(code)>>}

RECURSIVE Phase(_, _, _, _, _, _, _), Complete(_, _), Settle(_)
(* starts a phase: X: the resources that take part *)
Phase(s, t, kind, X, one, to, code) ==
   LET base == SetStage(s, t, kind)
       \* what cannot be sent has failed; for what is not there any more it could be that the outcome is not known
       Start(x, qs, L) ==
          LET job == [k |-> kind, t |-> t, to |-> to, code |-> code, all |-> Range(qs), lost |-> L,
                      got |-> { [q |-> q, code |-> "resource_fail"] : q \in x.lost \ L}]
          IN { Res(y.s, x.out \cup y.out) : y \in Settle([x.s EXCEPT !.jobs = @ \cup {job}])}
   IN UNION { UNION { UNION { Start(x, qs, L) : L \in { {}, { q \in x.lost : External(q.rm)}}}
                      : x \in SendAll(base, qs)} : qs \in Requests(t, kind, X, one)}

Open(job) == { q \in job.all : q \notin job.lost /\ ~\E g \in job.got : g.q = q}
(* phases that are done *)
Settle(s) ==
   LET D == { j \in s.jobs : Open(j) = {}} IN
   IF D = {} THEN {Res(s, {})}
   ELSE LET j == CHOOSE j \in D : TRUE IN Bind(Complete([s EXCEPT !.jobs = @ \ {j}], j), LAMBDA x : Settle(x))

Complete(s, j) ==
   CASE j.k = "prepare" ->
          LET raw == Code(j, "read_only")
              ro == { g.q : g \in { h \in j.got : h.code = "read_only"}}
              active == { [rm |-> g.q.rm, b |-> g.q.b] : g \in { h \in j.got : h.code # "read_only"}}
              s1 == Purge([s EXCEPT !.tx[j.t] = [stage |-> "post_prepare", br |-> [ k \in DOMAIN @.br |->
                        [@.br[k] EXCEPT !.rs = { m \in @ : ~\E q \in ro : q.rm = m /\ q.b = s.tx[j.t].br[k].b}]]]], j.t)
              \* who does not know the transaction can not take part in a commit
              code == IF raw = "invalid_xid" THEN "rollback_other" ELSE raw
          IN IF code = "read_only" THEN LET r == Remove(s1, j.t) IN {Res(r.s, r.out \cup Answer(j.to, code, "commit"))}
             ELSE IF code = "ok" THEN
                IF j.to.kind = "xprepare" THEN {Res([s1 EXCEPT !.held = @ \cup Answer(j.to, code, "")], {})}
                ELSE Phase(IF j.to.kind = "commit" THEN [s1 EXCEPT !.held = @ \cup Answer(j.to, code, "prepare")] ELSE s1,
                           j.t, "commit", active, FALSE, j.to, code)
             ELSE IF j.to.kind = "xprepare" THEN {Res(s1, Answer(j.to, code, ""))}
             ELSE Phase(s1, j.t, "rollback", active, FALSE, j.to, code)
     [] j.k = "commit" -> LET r == Remove(s, j.t) IN {Res(r.s, r.out \cup Answer(j.to, Code(j, j.code), "commit"))}
     [] j.k = "rollback" ->
          LET code == Code(j, j.code) IN
          IF j.to.kind = "self" /\ Tx(code) # "ok" THEN {Res(s, {})}
          ELSE LET r == Remove(s, j.t) IN {Res(r.s, r.out \cup Answer(j.to, code, "rollback"))}

(* ------------------------------------------------------- what is asked for *)
To(kind, id) == [kind |-> kind, id |-> id]

Involved(s, t, b, own, id, rs, reply) ==
   LET s1 == Involve(s, t, b, own, {})
       had == { r.rm : r \in { x \in Resources(s, t) : x.b = b}}
       s2 == Involve(s1, t, b, own, { m \in rs : m \in s.rms})
   IN {Res(s2, IF reply THEN {<< "involved", S(id), Csv(had)>>} ELSE {})}

Commit(s, t, b, own, id, rs) ==
   LET s1 == Purge(Involve(s, t, b, own, rs), t)
       X == Resources(s1, t)
   IN IF Stage(s1, t) # "involved" THEN {Res(s1, {<< "commit", S(id), "protocol", "commit">>})}
      ELSE IF X = {} THEN LET r == Remove(s1, t) IN {Res(r.s, r.out \cup {<< "commit", S(id), "ok", "commit">>})}
      ELSE IF Cardinality(X) = 1 THEN Phase(s1, t, "commit", X, TRUE, To("commit", id), "read_only")
      ELSE Phase(s1, t, "prepare", X, FALSE, To("commit", id), "read_only")

Rollback(s, t, b, own, id, rs) ==
   LET s1 == Purge(Involve(s, t, b, own, rs), t) IN
   IF Stage(s1, t) # "involved" THEN {Res(s1, {<< "rollback", S(id), "protocol">>})}
   ELSE Phase(s1, t, "rollback", Resources(s1, t), FALSE, To("rollback", id), "read_only")

(* as a resource of another transaction manager *)
Nothing(s, kind, id) == {Res(s, {<< kind, S(id), "read_only">>})}
XPrepare(s, t, id) ==
   IF t \notin DOMAIN s.tx \/ Stage(s, t) # "involved" THEN Nothing(s, "xprepare", id)
   ELSE IF Resources(s, t) = {} THEN LET r == Remove(s, t) IN {Res(r.s, r.out \cup {<< "xprepare", S(id), "read_only">>})}
   ELSE Phase(s, t, "prepare", Resources(s, t), FALSE, To("xprepare", id), "read_only")
XCommit(s, t, id) ==
   IF t \notin DOMAIN s.tx THEN Nothing(s, "xcommit", id)
   ELSE IF Stage(s, t) = "post_prepare" THEN Phase(s, t, "commit", Resources(s, t), FALSE, To("xcommit", id), "read_only")
   ELSE IF Stage(s, t) = "involved" THEN Phase(s, t, "prepare", Resources(s, t), FALSE, To("xcommit", id), "read_only")
   ELSE Nothing(s, "xcommit", id)
XRollback(s, t, id) ==
   IF t \notin DOMAIN s.tx \/ Stage(s, t) \notin {"involved", "post_prepare"} THEN Nothing(s, "xrollback", id)
   ELSE Phase(s, t, "rollback", Resources(s, t), FALSE, To("xrollback", id), "read_only")

(* ---------------------------------------------------- what resources answer *)
Got(s, q, code) == [s EXCEPT !.jobs = { IF q \in Open(j) THEN [j EXCEPT !.got = @ \cup {[q |-> q, code |-> code]}] ELSE j : j \in s.jobs}]
(* an instance that is free takes the first request that waits for one *)
Free(s, i) ==
   LET rm == s.inst[i].rm
       W == { k \in DOMAIN s.pend : s.pend[k].rm = rm}
   IN IF W = {} THEN Res([s EXCEPT !.inst[i].busy = {}], {})
      ELSE LET k == SetMin(W) IN Res([s EXCEPT !.inst[i].busy = {s.pend[k]}, !.pend = Drop(@, k)], {ReqOut(i, s.pend[k])})
Reply(s, i, q, code) ==
   IF External(q.rm) THEN Settle(Got([s EXCEPT !.at = @ \ {q}], q, code))
   ELSE LET f == Free(s, i) IN { Res(x.s, x.out \cup f.out) : x \in Settle(Got(f.s, q, code))}

(* what a dead instance had has failed; so has what waits for the last one *)
RECURSIVE Fail(_, _)
Fail(s, Q) == IF Q = {} THEN s ELSE LET q == CHOOSE q \in Q : TRUE IN Fail(Got(s, q, "resource_fail"), Q \ {q})
Die(s, i) ==
   LET rm == s.inst[i].rm
       s1 == [s EXCEPT !.inst = Without(@, {i})]
       last == ~Alive(s1, rm)
       waits == IF last THEN { q \in Range(s.pend) : q.rm = rm} ELSE {}
   IN Settle(Fail([s1 EXCEPT !.pend = SelectSeq(@, LAMBDA q : q \notin waits)], s.inst[i].busy \cup waits))

(* ------------------------------------------------------------- surroundings *)
XInstance(s, e) == {Res([s EXCEPT !.ext = @ \cup {e}, !.known = @ \cup {e}], {})}
XInvolved(s, e, t, b, own) ==
   LET s1 == [s EXCEPT !.ext = @ \cup {e}, !.known = @ \cup {e}] IN {Res(Involve(s1, t, b, own, {e}), {})}
(* what it has to answer is lost *)
XGone(s, e) ==
   LET L == { q \in s.at : q.rm = e}
       s1 == [s EXCEPT !.ext = @ \ {e}, !.at = @ \ L, !.jobs = { [j EXCEPT !.lost = @ \cup { q \in j.all : q.rm = e},
                                                                           !.got = @] : j \in s.jobs}]
   IN Settle(s1)

(* a process that owns transactions is gone: what is not on its way to an end is rolled back *)
Mine(s, c) == { t \in DOMAIN s.tx : Branches(s, t) # <<>> /\ Branches(s, t)[Len(Branches(s, t))].own = c /\ Stage(s, t) = "involved"}
RECURSIVE RollbackAll(_, _)
RollbackAll(s, Ts) ==
   IF Ts = {} THEN {Res(s, {})}
   ELSE LET t == SetMin(Ts) s1 == Purge(s, t) IN
        Bind(Phase(s1, t, "rollback", Resources(s1, t), FALSE, To("self", 0), "read_only"), LAMBDA x : RollbackAll(x, Ts \ {t}))
OwnerGone(s, c) == RollbackAll(s, Mine(s, c))

Inbound(s, t) == IF t \in DOMAIN s.tx THEN { Res(s, {<< "branch", S(t), S(s.tx[t].br[k].b)>>}) : k \in DOMAIN s.tx[t].br}
                 ELSE {Res(Involve(s, t, 9, 0, {}), {<< "branch", S(t), "9">>})}
Active(s, id, Ts) == {Res(s, {<< "active", S(id), Csv(Ts \cap DOMAIN s.tx)>>})}

(* --------------------------------------------------------------- invariants *)
TypeInv(s) ==
   /\ \A i \in DOMAIN s.inst : Cardinality(s.inst[i].busy) <= 1 /\ \A q \in s.inst[i].busy : q.rm = s.inst[i].rm
   /\ \A k \in DOMAIN s.pend : Idle(s, s.pend[k].rm) = {} /\ Alive(s, s.pend[k].rm)
   /\ \A t \in DOMAIN s.tx : Stage(s, t) \in {"involved", "prepare", "post_prepare", "commit", "rollback"}
   /\ \A t \in DOMAIN s.tx : Cardinality({ j \in s.jobs : j.t = t}) <= 1
   /\ \A j \in s.jobs : j.t \in DOMAIN s.tx /\ Stage(s, j.t) = j.k
(* every request of a phase is at a resource or waits for one: the phase will end *)
Alive2(s) == \A j \in s.jobs : Open(j) # {} /\ \A q \in Open(j) : q \in s.at \/ q \in Range(s.pend) \/ \E i \in DOMAIN s.inst : q \in s.inst[i].busy
=============================================================================
