----------------------------- MODULE ForwardMC -----------------------------
(* A small world, explored in full: one flow of each of two forwards.        *)
EXTENDS Forward

CONSTANTS Groups, MaxSteps, MaxFlows, Start0, Changes

(* took: what has happened to a flow, in order *)
VARIABLES s, n, took
vars == << s, n, took>>

Need(t) == {q \in Queues : LET f == Of(q) IN t.out[q] = 0 /\ Missing(t, f) > 0 /\ ~Known(t, f, q)}
Looked(t) == IF t.lvl = "running" THEN [t EXCEPT !.out = [q \in Queues |-> IF q \in Need(t) THEN 1 ELSE @[q]]] ELSE [t EXCEPT !.out = [q \in Queues |-> 0]]
Reconfigured(t) == [t EXCEPT !.out = [q \in Queues |-> IF t.cfg[Of(q)] > 0 THEN 1 ELSE 0]]
All(ph) == {d \in DOMAIN s.fl : s.fl[d].ph = ph}

Stimuli ==
  {<<"lookedup", q, g>> : q \in {q \in Queues : s.out[q] > 0}, g \in s.up \cup Groups}
  \cup {<<"message", d, "m">> : d \in All("deq") \cap s.at} \cup {<<"empty", d>> : d \in All("deq") \cap s.at} \cup {<<"forgetreq", d>> : d \in All("deq") \cap s.at}
  \cup {<<"service", d, a>> : d \in All("lookup") \cap s.sl, a \in {"idle", "absent"}}
  \cup {<<"reply", d, c>> : d \in All("call"), c \in {"OK", "TPESVCFAIL"}}
  \cup {<<"enqueued", d, b>> : d \in {d \in All("enq") : s.fl[d].g \in s.up}, b \in {"0", "1"}}
  \cup {<<"committed", d, "commit">> : d \in All("commit")} \cup {<<"rolledback", d, "ok">> : d \in All("rollback")}
  \cup {<<"vanish", g>> : g \in s.up} \cup {<<"gone", g, "ipc">> : g \in Groups}
  \cup {<<"config", c>> : c \in Changes} \cup (IF s.lvl = "running" THEN {<<"shutdown">>} ELSE {})

D(r) == CASE r[1] \in {"dequeue"} -> r[3] [] OTHER -> r[2]
Taken(rows, w) ==
  LET told == IF w[1] \in {"reply", "enqueued"} THEN << <<w[1], w[2], w[3]>> >> ELSE <<>>
      seen == told \o SelectSeq(rows, LAMBDA r : r[1] \in {"commit", "rollback"})
  IN FoldLeft(LAMBDA a, r : With(a, r[2], (IF r[2] \in DOMAIN a THEN a[r[2]] ELSE <<>>) \o << <<r[1], r[3]>> >>), took, seen)

Step(w) ==
  \E t \in After(s, <<w>>) :
     /\ s' = [Looked(IF w[1] = "config" THEN Reconfigured(t) ELSE t) EXCEPT !.rows = <<>>]
     /\ took' = Taken(t.rows, w)
Init == /\ s = (CHOOSE t \in {[Looked(Reconfigured(u)) EXCEPT !.rows = <<>>] : u \in After(Init0, << <<"config", Start0>> >>)} : TRUE)
        /\ n = 0 /\ took = <<>>
Next == /\ n < MaxSteps /\ n' = n + 1 /\ ~s.gone /\ (\A f \in Fs : s.cnt[f] < MaxFlows)
        /\ \E w \in Stimuli : Step(w)
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s) /\ Looking(s)
Resolutions(d) == SelectSeq(took[d], LAMBDA r : r[1] \in {"commit", "rollback"})
Once == \A d \in DOMAIN took : Len(Resolutions(d)) <= 1
(* the label tells which forward it is *)
Complete == \A d \in DOMAIN took : \A i \in DOMAIN took[d] :
  took[d][i][1] = "commit" => LET before == SubSeq(took[d], 1, i - 1)
                              IN \/ (\E j \in DOMAIN before : before[j] = <<"enqueued", "1">>)
                                 \/ (before # <<>> /\ before[Len(before)] = <<"reply", "OK">> /\ d \in {"201", "202", "203"})
Bounded == \A f \in Fs : Run(s, f) <= 3
Ends == s.lvl = "shutdown" => (s.gone <=> DOMAIN s.fl = {})
=============================================================================
