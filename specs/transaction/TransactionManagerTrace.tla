----------------------- MODULE TransactionManagerTrace -----------------------
(* Executions of the real transaction manager are behaviours of              *)
(* TransactionManager.                                                       *)
EXTENDS TransactionManager, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>

Set(q) == { q[k] : k \in DOMAIN q}
Tr == Traces[tid]
Ev == Tr[l]
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Empty(<<>>)

(* answers that wait for the log may come at any time, but come *)
Step(R) ==
   \E r \in R :
      LET X == Set(Ev.out) \cap r.s.held IN
      /\ Set(Ev.out) = r.out \cup X /\ X \cap r.out = {} /\ Len(Ev.out) = Cardinality(Set(Ev.out))
      /\ s' = [r.s EXCEPT !.held = @ \ X]
Settled == s'.held = {}

Q == [k |-> Ev.k, rm |-> Ev.rm, t |-> Ev.t, b |-> Ev.b, one |-> Ev.one]

TBoot == Is("boot") /\ s' = Empty([ i \in { Ev.inst[k] : k \in DOMAIN Ev.inst} |-> i \div 10])
TInvolve == Is("involve") /\ Step(Involved(s, Ev.t, Ev.b, Ev.own, Ev.id, Set(Ev.rs), Ev.reply))
TCommit == Is("commit") /\ Step(Commit(s, Ev.t, Ev.b, Ev.own, Ev.id, Set(Ev.rs)))
TRollback == Is("rollback") /\ Step(Rollback(s, Ev.t, Ev.b, Ev.own, Ev.id, Set(Ev.rs)))
TXPrepare == Is("xprepare") /\ Step(XPrepare(s, Ev.t, Ev.id))
TXCommit == Is("xcommit") /\ Step(XCommit(s, Ev.t, Ev.id))
TXRollback == Is("xrollback") /\ Step(XRollback(s, Ev.t, Ev.id))
TReply == Is("reply") /\ Step(Reply(s, Ev.i, Q, Ev.code))
TDie == Is("die") /\ Step(Die(s, Ev.i))
TReg == Is("xreg") /\ Step(XInstance(s, Ev.x))
TXInvolve == Is("xinvolve") /\ Step(XInvolved(s, Ev.x, Ev.t, Ev.b, Ev.own))
TXGone == Is("xgone") /\ Step(XGone(s, Ev.x))
TOwner == Is("owner") /\ Step(OwnerGone(s, Ev.c))
TInbound == Is("inbound") /\ Step(Inbound(s, Ev.t))
TActive == Is("active") /\ Step(Active(s, Ev.id, Set(Ev.ts)))
TSettle == Is("settle") /\ Step({Res(s, {})}) /\ Settled
TEnd == Is("end") /\ s' = s

Next == \/ TBoot \/ TInvolve \/ TCommit \/ TRollback \/ TXPrepare \/ TXCommit \/ TXRollback \/ TReply \/ TDie \/ TReg \/ TXInvolve \/ TXGone
        \/ TOwner \/ TInbound \/ TActive \/ TSettle \/ TEnd
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s) /\ Alive2(s)

Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
