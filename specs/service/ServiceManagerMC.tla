-------------------------- MODULE ServiceManagerMC --------------------------
(* ServiceManager with its surroundings as a state machine, for exhaustive    *)
(* checks of small instances: callers look up, servers come, answer and die,  *)
(* deadlines pass.                                                            *)
EXTENDS ServiceManager

CONSTANTS Callees, Remotes, Services, Routed, MaxLookups, MaxSteps, Sems, Reqs

VARIABLES s, next, steps, shuts,
          told,        \* lookup -> sequence of the states it was answered with
          errors,      \* lookup -> how many error replies its caller got instead of the answer of the callee
          withdrawn,   \* discarded by their callers
          acked        \* lookups the callee is done with
vars == << s, next, steps, shuts, told, errors, withdrawn, acked>>

RoutesOf(n) == {10 * n + 1}
Cfg == [ n \in Services |-> [dur |-> IF n = 1 THEN 5 ELSE 0, contract |-> IF n = 1 THEN "kill" ELSE "linger", vis |-> "", routes |-> IF n \in Routed THEN RoutesOf(n) ELSE {}]]
T == [lo |-> 1, hi |-> 1]

Init == /\ s = Empty(Cfg, [dur |-> 0, contract |-> ""]) /\ next = 1 /\ steps = 0 /\ shuts = <<>>
        /\ told = [ i \in 1..MaxLookups |-> <<>>] /\ errors = [ i \in 1..MaxLookups |-> 0] /\ withdrawn = {} /\ acked = {}

SetToSeq1(X) == LET RECURSIVE F(_)  F(Y) == IF Y = {} THEN <<>> ELSE LET y == CHOOSE y \in Y : TRUE IN << y>> \o F(Y \ {y}) IN F(X)
Lks(out, id) == { o \in out : o[1] = "lookup" /\ o[2] = S(id)}
Errs(out, id) == { o \in out : o[1] = "error" /\ o[2] = S(id)}
Record(r) ==
   /\ s' = [r.s EXCEPT !.ans = <<>>]
   /\ told' = [ i \in 1..MaxLookups |-> IF Lks(r.out, i) = {} THEN told[i] ELSE told[i] \o SetToSeq1({ o[3] : o \in Lks(r.out, i)})]
   /\ errors' = [ i \in 1..MaxLookups |-> errors[i] + Cardinality(Errs(r.out, i))]
   /\ shuts' = LET P == { o \in r.out : o[1] = "prep"} IN IF P = {} THEN shuts ELSE Append(shuts, P)

Step == steps < MaxSteps /\ steps' = steps + 1
Do(F) == \E r \in F : Record(r)
Same == UNCHANGED << next, withdrawn, acked>>

Names0 == (Services \ Routed) \cup UNION { RoutesOf(n) : n \in Routed}
DoLookup == /\ next <= MaxLookups /\ next' = next + 1 /\ UNCHANGED << withdrawn, acked>>
            /\ \E nm \in Names0, sem \in Sems, req \in Reqs :
               Do(Lookup(s, [id |-> next, nm |-> nm, sem |-> sem, req |-> req, g |-> 0, c |-> 1, dlo |-> 0, dhi |-> 0], T))
DoAck == \E i \in DOMAIN s.inst : s.inst[i].rsv # 0 /\ acked' = acked \cup {s.inst[i].rsv} /\ Do(Ack(s, i, s.inst[i].rsv, 1, T)) /\ UNCHANGED << next, withdrawn>>
DoDiscard == \E id \in 1..(next - 1) : id \notin withdrawn /\ id \notin acked /\ Do(Discard(s, id, TRUE, T)) /\ withdrawn' = withdrawn \cup {id} /\ UNCHANGED << next, acked>>
DoExit == \E i \in DOMAIN s.inst : Do(Exit(s, i, T)) /\ Same
DoAdvertise == \E i \in Callees, n \in Services : Do(Advertise(s, i, {n}, {}, T)) /\ Same
DoWithdraw == \E i \in Callees : i \in DOMAIN s.inst /\ \E n \in s.inst[i].svcs : Do(Advertise(s, i, {}, {n}, T)) /\ Same
DoClear == \E i \in Callees : i \in DOMAIN s.inst /\ Do(Clear(s, i, T)) /\ Same
DoRemote == \E i \in Remotes, n \in Services : Do(ConAdvertise(s, i, 1, (n :> 0), {}, T)) /\ Same
DoPrepare == \E i \in Callees : i \in DOMAIN s.inst /\ Do(Prepare(s, 9000 + steps, {i}, T)) /\ Same
DoDiscovered == \E k \in DOMAIN s.pend : Do(Discovered(s, s.pend[k].id, T)) /\ Same
DoExpire == \E e \in s.dl : Do({Expire(s, e)}) /\ Same

Next == Step /\ (DoLookup \/ DoAck \/ DoDiscard \/ DoExit \/ DoAdvertise \/ DoWithdraw \/ DoClear \/ DoRemote \/ DoPrepare \/ DoDiscovered \/ DoExpire)
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s)
Prompt == NoIdleWaiting(s)
(* every lookup has at most one answer, and if it has none it waits or was withdrawn *)
AnsweredOnce == \A id \in 1..(next - 1) : Len(told[id]) <= 1
NotForgotten == \A id \in 1..(next - 1) : told[id] # <<>> \/ id \in withdrawn \/ Pending(s, id)
Reserved(id) == \E i \in DOMAIN s.inst : s.inst[i].rsv = id
(* an error is sent at most once, and never after the callee answered *)
ErrorOnce == \A id \in 1..(next - 1) : errors[id] <= 1 /\ (errors[id] = 1 => told[id] = <<"idle">>)
(* an instance that is asked to leave gets no more calls *)
Leaving == \A i \in DOMAIN s.inst : s.inst[i].dis /\ s.inst[i].rsv = 0 => \A k \in DOMAIN s.shut : i \notin s.shut[k].wait
(* a deadline is that of somebody that waits *)
DeadlinesLive == \A e \in s.dl : Pending(s, e.id) \/ Reserved(e.id)
=============================================================================
