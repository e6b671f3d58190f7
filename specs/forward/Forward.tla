------------------------------ MODULE Forward ------------------------------
(* The queue forward: flows that take messages from a queue and give them to *)
(* a service or another queue, in a transaction per message.                 *)
(*                                                                           *)
(* Forward 1: queue qa -> service s1, the reply to queue qr. Forward 2:      *)
(* qb -> s2, no reply. Forward 3: qc -> queue qd.                            *)
(*                                                                           *)
(* A flow is deq (the group is asked for a message), lookup (of the service),*)
(* discard (the lookup is to be discarded), call, enq (the group of the      *)
(* target is asked to store), commit or rollback.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

Fs == 1..3
Queues == {"qa", "qr", "qb", "qc", "qd"}
Source == <<"qa", "qb", "qc">>
Target == <<"qr", "", "qd">>
Svc == <<"s1", "s2", "">>
QueuesOf(f) == {Source[f], Target[f]} \ {""}
Of(q) == CHOOSE f \in Fs : q \in QueuesOf(f)
NONE == "-"

(* at, sl: the dequeues, and service lookups, the world has not answered     *)
(* due: what the world answers by itself; fk: replies that are made up       *)
Init0 == [cfg |-> <<0, 0, 0>>, src |-> <<NONE, NONE, NONE>>, tgt |-> <<NONE, "+", NONE>>, fl |-> <<>>, out |-> [q \in Queues |-> 0],
          up |-> {}, lvl |-> "running", cnt |-> <<0, 0, 0>>, x |-> 0, at |-> {}, sl |-> {}, due |-> <<>>, fk |-> <<>>, rows |-> <<>>, gone |-> FALSE]

Flows(s, f) == {d \in DOMAIN s.fl : s.fl[d].f = f}
In(s, f, ph) == {d \in Flows(s, f) : s.fl[d].ph = ph}
Is(s, d, ph) == d \in DOMAIN s.fl /\ s.fl[d].ph = ph
Run(s, f) == Cardinality(Flows(s, f))
Missing(s, f) == IF s.cfg[f] > Run(s, f) THEN s.cfg[f] - Run(s, f) ELSE 0
Valid(s, f) == s.src[f] # NONE /\ s.tgt[f] # NONE

Without(m, k) == [i \in DOMAIN m \ {k} |-> m[i]]
With(m, k, v) == [i \in DOMAIN m \cup {k} |-> IF i = k THEN v ELSE m[i]]
Row(s, r) == [s EXCEPT !.rows = Append(@, r)]
Phase(s, d, ph) == [s EXCEPT !.fl[d].ph = ph]
Untarget(s, f) == IF f = 2 THEN s ELSE [s EXCEPT !.tgt[f] = NONE]

Rollback(s, d) == Row(Phase(s, d, "rollback"), <<"rollback", d, d>>)
Commit(s, d) == Row(Phase(s, d, "commit"), <<"commit", d, d>>)

(* a dequeue request, to a group that might be gone *)
Dequeue(s, f) ==
  LET g == s.src[f]
      d == ToString(f * 100 + s.cnt[f] + 1)
      y == "x" \o ToString(s.x + 1)
  IN IF g \in s.up
     THEN Row([s EXCEPT !.cnt[f] = @ + 1, !.at = @ \cup {d}, !.fl = With(@, d, [f |-> f, ph |-> "deq", g |-> g])],
              <<"dequeue", g, d, Source[f], Source[f], "fresh", "block">>)
     ELSE [s EXCEPT !.x = @ + 1, !.src[f] = NONE, !.fk = Append(@, <<y, "deq">>), !.fl = With(@, y, [f |-> f, ph |-> "deq", g |-> NONE])]
RECURSIVE Start(_, _, _)
Start(s, f, n) == IF n = 0 \/ s.src[f] = NONE THEN s ELSE Start(Dequeue(s, f), f, n - 1)
(* if the queues are not known they are looked up, see Looking *)
Again(s, f) == IF Valid(s, f) THEN Start(s, f, Missing(s, f)) ELSE s
Clear(s, f) == IF s.cfg[f] = 0 /\ Run(s, f) = 0 THEN Untarget([s EXCEPT !.src[f] = NONE], f) ELSE s
End(s, d) == LET f == s.fl[d].f IN Again(Clear([s EXCEPT !.fl = Without(@, d)], f), f)

(* the target does not know the queue, or is gone *)
Nowhere(s, d) == LET f == s.fl[d].f IN Rollback(Untarget([s EXCEPT !.src[f] = NONE], f), d)
Enqueue(s, d, data) ==
  LET f == s.fl[d].f
      g == s.tgt[f]
      t == [s EXCEPT !.fl[d].ph = "enq", !.fl[d].g = g]
  IN IF g \in s.up THEN Row(t, <<"enqueue", g, d, Target[f], Target[f], d, data, IF f = 3 THEN "later" ELSE "now">>)
     ELSE [t EXCEPT !.fk = Append(@, <<d, "enq">>)]

(* a made up reply *)
Fake(s, r) == IF ~Is(s, r[1], r[2]) THEN s ELSE IF r[2] = "deq" THEN Rollback(s, r[1]) ELSE Nowhere(s, r[1])
Faked(s) == [FoldLeft(Fake, s, s.fk) EXCEPT !.fk = <<>>]

Forget(s, d) == [s EXCEPT !.due = Append(@, <<"forget", s.fl[d].g, d>>)]
Lost(s, g, f) ==
  LET src == s.src[f] = g
      tgt == s.tgt[f] = g
      t == IF src THEN [s EXCEPT !.src[f] = NONE] ELSE s
      u == IF tgt THEN FoldLeft(LAMBDA a, d : Forget(a, d), [t EXCEPT !.tgt[f] = NONE], SetToSeq({d \in In(t, f, "deq") : t.fl[d].g # g})) ELSE t
  IN IF src \/ tgt THEN Again(u, f) ELSE s
Gone(s, g) ==
  LET t == [s EXCEPT !.fk = @ \o SetToSeq({<<d, s.fl[d].ph>> : d \in {d \in DOMAIN s.fl : s.fl[d].ph \in {"deq", "enq"} /\ s.fl[d].g = g}})]
  IN FoldLeft(LAMBDA a, f : Lost(a, g, f), t, <<3, 1, 2>>)

(* to few: those that wait for something that might never come are cancelled. Which of them does not matter *)
Least(a, b) == IF a < b THEN a ELSE b
Cancel(s, f) ==
  LET surplus == IF s.cfg[f] > Run(s, f) THEN 0 ELSE Run(s, f) - s.cfg[f]
      deq == In(s, f, "deq")
      n == Least(surplus, Cardinality(deq))
      look == In(s, f, "lookup")
      m == Least(surplus - n, Cardinality(look))
  IN {FoldLeft(LAMBDA a, d : [Phase(a, d, "discard") EXCEPT !.due = Append(@, <<"unservice", d>>)], FoldLeft(LAMBDA a, d : Forget(a, d), s, SetToSeq(D)), SetToSeq(L)) :
        D \in {D \in SUBSET deq : Cardinality(D) = n}, L \in {L \in SUBSET look : Cardinality(L) = m}}
Comply(s) == UNION {UNION {Cancel(u, 3) : u \in Cancel(t, 2)} : t \in Cancel(s, 1)}
Configure(s, n) == {Row(t, <<"updated">>) : t \in Comply([s EXCEPT !.cfg = n])}
Shutdown(s) == Comply([s EXCEPT !.cfg = <<0, 0, 0>>, !.lvl = "shutdown"])

(* what the world does by itself when it is asked to forget, or discard *)
Answer(s, a) ==
  CASE a[1] = "forget" ->
         IF a[2] \notin s.up THEN s
         ELSE LET yes == a[3] \in s.at
                  t == Row([s EXCEPT !.at = @ \ {a[3]}], <<"forget", a[2], a[3], IF yes THEN "1" ELSE "0">>)
              IN IF yes /\ Is(t, a[3], "deq") THEN End(t, a[3]) ELSE t
    [] OTHER ->
         LET t == Row([s EXCEPT !.sl = @ \ {a[2]}], <<"unservice", a[2], IF a[2] \in s.sl THEN "1" ELSE "0">>)
         IN IF Is(t, a[2], "discard") THEN Rollback(t, a[2]) ELSE t
RECURSIVE Settle(_)
Settle(s) == IF s.fk # <<>> THEN Settle(Faked(s))
             ELSE IF s.due = <<>> THEN s ELSE Settle(Answer([s EXCEPT !.due = Tail(@)], Head(s.due)))

(* what the world does *)
World(s, w) ==
  CASE w[1] = "lookedup" -> [s EXCEPT !.out[w[2]] = @ - 1, !.up = @ \cup {w[3]}]
    [] w[1] \in {"message", "empty", "forgetreq"} -> [s EXCEPT !.at = @ \ {w[2]}]
    [] w[1] = "service" -> [s EXCEPT !.sl = @ \ {w[2]}]
    [] w[1] \in {"vanish", "gone"} -> [s EXCEPT !.up = @ \ {w[2]}]
    [] OTHER -> s

(* how the forward takes it *)
Take(s, w) ==
  CASE w[1] = "lookedup" ->
         IF s.lvl = "shutdown" THEN {s}
         ELSE LET f == Of(w[2])
                  t == IF w[2] = Source[f] THEN [s EXCEPT !.src[f] = w[3]] ELSE [s EXCEPT !.tgt[f] = w[3]]
              IN {Again(t, f)}
    [] w[1] = "message" ->
         {IF ~Is(s, w[2], "deq") THEN s
          ELSE IF s.lvl = "shutdown" THEN Rollback(s, w[2])
          ELSE IF s.fl[w[2]].f = 3 THEN Enqueue(s, w[2], w[3])
          ELSE [Row(Phase(s, w[2], "lookup"), <<"service", w[2], Svc[s.fl[w[2]].f]>>) EXCEPT !.fl[w[2]].g = w[3], !.sl = @ \cup {w[2]}]}
    [] w[1] = "empty" -> {IF Is(s, w[2], "deq") THEN Rollback(s, w[2]) ELSE s}
    [] w[1] = "forgetreq" ->
         {IF ~Is(s, w[2], "deq") THEN s
          ELSE LET f == s.fl[w[2]].f
                   t == Clear([s EXCEPT !.fl = Without(@, w[2])], f)
               IN Again(IF t.src[f] = s.fl[w[2]].g THEN [t EXCEPT !.src[f] = NONE] ELSE t, f)}
    [] w[1] = "service" ->
         {IF ~Is(s, w[2], "lookup") THEN s
          ELSE IF w[3] = "idle" THEN Row(Phase(s, w[2], "call"), <<"call", w[2], Svc[s.fl[w[2]].f], w[2], s.fl[w[2]].g>>)
          ELSE IF w[3] = "gone" THEN Phase(s, w[2], "call")
          ELSE Rollback(s, w[2])}
    [] w[1] = "reply" ->
         {IF ~Is(s, w[2], "call") THEN s
          ELSE IF w[3] # "OK" THEN Rollback(s, w[2])
          ELSE IF s.fl[w[2]].f = 1 THEN Enqueue(s, w[2], "r" \o w[2]) ELSE Commit(s, w[2])}
    [] w[1] = "enqueued" -> {IF ~Is(s, w[2], "enq") THEN s ELSE IF w[3] = "1" THEN Commit(s, w[2]) ELSE Nowhere(s, w[2])}
    [] w[1] = "committed" -> {IF ~Is(s, w[2], "commit") \/ w[3] = "prepare" THEN s ELSE End(s, w[2])}
    [] w[1] = "rolledback" -> {IF Is(s, w[2], "rollback") THEN End(s, w[2]) ELSE s}
    [] w[1] = "gone" -> {Gone(s, w[2])}
    [] w[1] = "config" -> Configure(s, w[2])
    [] w[1] = "shutdown" -> Shutdown(s)
    [] OTHER -> {s}

(* made up replies come before or after what else has arrived *)
Both(s) == IF s.fk = <<>> THEN {s} ELSE {s, Faked(s)}
Exit(s) == [s EXCEPT !.gone = @ \/ (s.lvl = "shutdown" /\ DOMAIN s.fl = {})]

RECURSIVE Sequence(_, _)
Sequence(ss, ws) == IF ws = <<>> THEN ss
                    ELSE Sequence(UNION {UNION {Both(u) : u \in IF s.gone THEN {s} ELSE Take(s, ws[1])} : s \in ss}, Tail(ws))

(* the states after the stimuli, with the rows - but those of lookups *)
After(s, ws) == IF s.gone THEN {s}
                ELSE {Exit(Settle(t)) : t \in Sequence({FoldLeft(World, [s EXCEPT !.rows = <<>>], ws)}, ws)}

(* ---- lookups: what has to be waited for is *)
Lookups(s, rows) ==
  [s EXCEPT !.out = [q \in Queues |-> @[q] + Len(SelectSeq(rows, LAMBDA r : r = <<"lookup", q, "wait">>)) - Len(SelectSeq(rows, LAMBDA r : r = <<"unlookup", q>>))]]
Known(s, f, q) == IF q = Source[f] THEN s.src[f] # NONE ELSE s.tgt[f] # NONE
(* (what is needed is looked up at the latest when those that are under way have ended) *)
Looking(s) == s.lvl = "running" =>
  \A f \in Fs : Missing(s, f) > 0 /\ Flows(s, f) = In(s, f, "deq") => /\ \E q \in QueuesOf(f) : s.out[q] > 0
                                     /\ \A q \in QueuesOf(f) : Known(s, f, q) \/ s.out[q] > 0

TypeInv(s) ==
  /\ \A d \in DOMAIN s.fl : s.fl[d].ph \in {"deq", "lookup", "discard", "call", "enq", "commit", "rollback"}
  /\ s.due = <<>> /\ s.fk = <<>>
  /\ s.gone => DOMAIN s.fl = {}
=============================================================================
