------------------------ MODULE ServiceManagerTrace ------------------------
(* Executions of the real service manager are behaviours of ServiceManager.  *)
EXTENDS ServiceManager, Json, IOUtils, TLCExt

Margin == 700     \* ms a timer may be late

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>

Set(q) == { q[k] : k \in DOMAIN q}
Tr == Traces[tid]
Ev == Tr[l]
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
T == [lo |-> Ev.t0, hi |-> Ev.t1]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Empty(<<>>, [dur |-> 0, contract |-> ""]) @@ [lost |-> {}, by |-> <<>>]

Due(st) == { e \in st.dl : e.lo - Slop <= Ev.t1}
Overdue(st) == \E e \in st.dl : e.hi + Margin < Ev.t0

(* what concerns callers that are gone is not seen *)
Lost(st, o) == o[1] \in {"lookup", "error", "discard", "discover"} /\ o[2] \in { ToString(x) : x \in st.lost}
Seen(st, X) == { o \in X : ~Lost(st, o)}

(* the deadline that is told with an answer *)
Told(a, r) ==    \* a: {} or {<<lo, hi>>}; r: remaining ms <<floor, ceil>> or <<>>
   IF a = {} THEN r = <<>>
   ELSE LET d == CHOOSE x \in a : TRUE IN r # <<>> /\ d[1] - Slop <= Ev.t1 + r[2] /\ Ev.t0 + r[1] <= d[2] + Slop
RemOf(id) == LET k == { j \in DOMAIN Ev.rem : Ev.rem[j].id = id} IN IF k = {} THEN <<>> ELSE Ev.rem[CHOOSE j \in k : TRUE].r

(* what expires is told, unless nobody is there to know *)
Silent(st) == { e \in Due(st) : Seen(st, Expire(st, e).out) = {}}
Heard(st) == { e \in Due(st) \ Silent(st) : Seen(st, Expire(st, e).out) \subseteq Set(Ev.out)}

Step(F(_)) ==
   \E X \in SUBSET Heard(s) :
   LET x == ExpireAll([s |-> [s EXCEPT !.ans = <<>>], out |-> {}], X \cup Silent(s)) IN
   \E r \in F(x.s) :
      LET y == ExpireAll([s |-> r.s, out |-> x.out \cup r.out], Heard(r.s) \cup Silent(r.s))
          seen == SelectSeq(Ev.out, LAMBDA o : ~Lost(y.s, o))
      IN /\ Set(seen) = Seen(y.s, y.out) /\ Len(seen) = Cardinality(Set(seen))
         /\ ~Overdue(y.s)
         /\ \A id \in DOMAIN y.s.ans : id \in y.s.lost \/ Told(y.s.ans[id], RemOf(id))
         /\ s' = y.s

Ids(q) == Set(q)
L0 == [id |-> Ev.id, nm |-> Ev.nm, sem |-> Ev.sem, req |-> Ev.req, g |-> Ev.g, c |-> Ev.c,
       dlo |-> IF Ev.dead = 0 THEN 0 ELSE Ev.t0 + Ev.dead, dhi |-> IF Ev.dead = 0 THEN 0 ELSE Ev.t1 + Ev.dead]

TBoot ==
   /\ Is("boot")
   /\ LET row(n) == Ev.svcs[CHOOSE k \in DOMAIN Ev.svcs : Ev.svcs[k].n = n]
          cfg == [ n \in { Ev.svcs[k].n : k \in DOMAIN Ev.svcs} |-> [dur |-> row(n).dur, contract |-> row(n).contract, vis |-> row(n).vis, routes |-> Set(row(n).routes)]]
          base == Empty(cfg, [dur |-> Ev.dur, contract |-> Ev.contract])
      IN s' = [base EXCEPT !.cfg = [ i \in { Ev.restrict[k].i : k \in DOMAIN Ev.restrict} |->
                                       Set(Ev.restrict[CHOOSE k \in DOMAIN Ev.restrict : Ev.restrict[k].i = i].ns)]] @@ [lost |-> {}, by |-> <<>>]

Restricted(i, X) == IF i \in DOMAIN s.cfg THEN X \cap s.cfg[i] ELSE X

TLookup == /\ Is("lookup")
           /\ Step(LAMBDA x : Lookup([x EXCEPT !.by = (Ev.id :> Ev.c) @@ @], L0, T))
TAck == Is("ack") /\ Step(LAMBDA x : Ack(x, Ev.i, Ev.id, Ev.trid, T))
TDiscard == Is("discard") /\ Step(LAMBDA x : Discard(x, Ev.id, Ev.reply, T))
TDie == Is("die") /\ Step(LAMBDA x : Exit(x, Ev.i, T))
TAdv == Is("adv") /\ Step(LAMBDA x : Advertise(x, Ev.i, Restricted(Ev.i, Set(Ev.add)), Set(Ev.del), T))
TClear == Is("clear") /\ Step(LAMBDA x : Clear(x, Ev.i, T))
TCAdv == /\ Is("cadv")
         /\ LET X == { Ev.add[k].n : k \in DOMAIN Ev.add}
                hops(n) == Ev.add[CHOOSE k \in DOMAIN Ev.add : Ev.add[k].n = n].hops
            IN Step(LAMBDA x : ConAdvertise(x, Ev.i, Ev.order, [ n \in Restricted(Ev.i, X) |-> hops(n)], Set(Ev.del), T))
TCOrder == Is("corder") /\ Step(LAMBDA x : ConOrder(x, Ev.i, Ev.order))
TCReset == Is("creset") /\ Step(LAMBDA x : ConReset(x, Ev.i))
TPrep == Is("prep") /\ Step(LAMBDA x : Prepare(x, Ev.n, Set(Ev.is), T))
TDisassociate == Is("disassociate") /\ Step(LAMBDA x : Disassociate(x, Ev.g))
TDReply == Is("dreply") /\ Step(LAMBDA x : Discovered(x, Ev.id, T))
TCallerGone == /\ Is("callergone")
               /\ Step(LAMBDA x : { [y EXCEPT !.s.lost = @ \cup { id \in DOMAIN y.s.by : y.s.by[id] = Ev.c}] : y \in CallerGone(x, Ev.c)})
TSleep == Is("sleep") /\ Step(LAMBDA x : {[s |-> x, out |-> {}]})
TVisible == Is("visible") /\ Step(LAMBDA x : {[s |-> x, out |-> {}]})
            /\ Set(Ev.found) = Visible(s', Set(Ev.ns), Ev.scope) /\ Set(Ev.absent) = Set(Ev.ns) \ Set(Ev.found)
            /\ Len(Ev.found) + Len(Ev.absent) = Cardinality(Set(Ev.ns))
TRemote == Is("remote") /\ Step(LAMBDA x : {[s |-> x, out |-> {}]}) /\ Set(Ev.ns) = Remote(s') /\ Len(Ev.ns) = Cardinality(Set(Ev.ns))
TEnd == Is("end") /\ s' = s

Next == \/ TBoot \/ TLookup \/ TAck \/ TDiscard \/ TDie \/ TAdv \/ TClear \/ TCAdv \/ TCOrder \/ TCReset \/ TPrep \/ TDisassociate
        \/ TDReply \/ TCallerGone \/ TSleep \/ TVisible \/ TRemote \/ TEnd
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s) /\ NoIdleWaiting(s)

Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
