---------------------------- MODULE ForwardGen ----------------------------
(* Random behaviours of Forward, as scripts (used with -simulate).           *)
EXTENDS Forward, Json

CONSTANTS Kinds, Length, MaxGroup, Codes

VARIABLES s, n, out, ng, done, left
vars == << s, n, out, ng, done, left>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
Boot == Pick(<< <<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 2>>, <<0, 2, 1>>, <<2, 0, 3>>, <<3, 0, 0>> >>)

(* lookups as the real one sends them: for what is needed *)
Need(t) == {q \in Queues : LET f == Of(q) IN t.out[q] = 0 /\ Missing(t, f) > 0 /\ ~Known(t, f, q)}
Looked(t) == IF t.lvl = "running" THEN [t EXCEPT !.out = [q \in Queues |-> IF q \in Need(t) THEN 1 ELSE @[q]]] ELSE [t EXCEPT !.out = [q \in Queues |-> 0]]
Reconfigured(t) == [t EXCEPT !.out = [q \in Queues |-> IF t.cfg[Of(q)] > 0 THEN 1 ELSE 0]]

All(ph) == {d \in DOMAIN s.fl : s.fl[d].ph = ph}
Enqs == {d \in All("enq") : s.fl[d].g \in s.up}
Deqs == All("deq") \cap s.at
Outs == {q \in Queues : s.out[q] > 0}
Dead == {"g" \o ToString(i) : i \in 1..ng} \ s.up
Unnoticed == Dead \cap ({s.src[f] : f \in Fs} \cup {s.tgt[f] : f \in Fs} \cup {s.fl[d].g : d \in DOMAIN s.fl})
Can(k) == CASE k = "lookedup" -> Outs # {} /\ (s.up # {} \/ ng < MaxGroup)
            [] k \in {"message", "empty", "forgetreq"} -> Deqs # {}
            [] k = "service" -> All("lookup") \cap s.sl # {}
            [] k = "reply" -> All("call") # {}
            [] k = "enqueued" -> Enqs # {}
            [] k = "committed" -> All("commit") # {}
            [] k = "rolledback" -> All("rollback") # {}
            [] k \in {"vanish", "gone"} -> s.up # {}
            [] k = "notice" -> Unnoticed # {}
            [] OTHER -> TRUE
New == "g" \o ToString(ng + 1)
Words(k) ==
  CASE k = "lookedup" -> <<k, RandomElement(Outs), IF s.up = {} \/ (ng < MaxGroup /\ RR(1, 3) = 1) THEN New ELSE RandomElement(s.up)>>
    [] k = "message" -> CHOOSE w \in {<<k, d, "m" \o d>> : d \in {RandomElement(Deqs)}} : TRUE
    [] k \in {"empty", "forgetreq"} -> <<k, RandomElement(Deqs)>>
    [] k = "service" -> <<k, RandomElement(All("lookup") \cap s.sl), Pick(<<"idle", "idle", "idle", "idle", "absent", "timeout", "gone">>)>>
    [] k = "reply" -> <<k, RandomElement(All("call")), Pick(Codes)>>
    [] k = "enqueued" -> <<k, RandomElement(Enqs), Pick(<<"1", "1", "1", "0">>)>>
    [] k = "committed" -> <<k, RandomElement(All("commit")), Pick(<<"prepare", "commit", "commit", "error">>)>>
    [] k = "rolledback" -> <<k, RandomElement(All("rollback")), Pick(<<"ok", "ok", "error">>)>>
    [] k = "vanish" -> <<k, RandomElement(s.up)>>
    [] k = "gone" -> <<k, RandomElement(s.up), Pick(<<"ipc", "exit">>)>>
    [] k = "notice" -> <<"gone", RandomElement(Unnoticed), Pick(<<"ipc", "exit">>)>>
    [] k = "config" -> <<k, Pick(<< <<1, 1, 1>>, <<2, 1, 0>>, <<0, 2, 2>>, <<1, 0, 3>>, <<3, 3, 1>>, <<0, 0, 1>> >>)>>
    [] OTHER -> <<k>>

Text(w) == IF w[1] \in {"config", "boot"} THEN Cat(<<w[1], ToString(w[2][1]), ToString(w[2][2]), ToString(w[2][3])>>) ELSE Cat(w)
Answered(w) == w[1] \in {"message", "empty", "forgetreq", "service", "reply", "enqueued", "committed", "rolledback"}
Apply(t, ws) ==
  CHOOSE u \in {IF \E i \in DOMAIN ws : ws[i][1] = "config" THEN Looked(Reconfigured(v)) ELSE Looked(v) : v \in {CHOOSE v \in After(t, ws) : TRUE}} : TRUE

Init == \E c \in {Boot} :
  /\ out = <<Text(<<"boot", c>>)>> /\ s = Apply(Init0, << <<"config", c>> >>)
  /\ n = 0 /\ ng = 0 /\ done = FALSE /\ left = <<>>

First(ks) == LET can == {i \in DOMAIN ks : Can(ks[i])} IN IF can = {} THEN "settle" ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]
Groups(w) == IF w[1] = "lookedup" /\ w[3] = New THEN ng + 1 ELSE ng
(* after a shutdown: what is needed to reach the end *)
Tail_ == <<"committed", "rolledback", "enqueued", "reply", "service", "notice">>
Next == \/ /\ n < Length /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..6 |-> Pick(Kinds)]}, race \in {IF n + 14 = Length THEN RR(1, 8) > 1 ELSE RR(1, 5) = 1}, swap \in {RR(1, 3) = 1}, ks2 \in {IF n + 14 = Length THEN Pick(<< <<"message", "service", "reply">>, <<"message", "forgetreq">>, <<"empty", "lookedup">>, <<"service", "message">>, <<"lookedup", "message">>, <<"gone", "message">>, <<"committed", "rolledback", "message">>, <<"message">> >>) ELSE [i \in 1..6 |-> Pick(Kinds)]} :
              \E w \in {Words(IF s.lvl = "shutdown" \/ n + 14 >= Length THEN First(IF n + 14 = Length THEN <<"shutdown">> ELSE Tail_) ELSE First(ks))} :
              \E v \in {Words(First(ks2))} :
                 LET two == race /\ n + 14 <= Length /\ s.lvl = "running" /\ ~(Answered(w) /\ Answered(v) /\ w[2] = v[2])
                            /\ ~(w[1] = "lookedup" /\ v[1] = "lookedup") /\ ~(w[1] = "lookedup" /\ v[1] \in {"gone", "vanish"} /\ Groups(w) > ng)
                            /\ ~(v[1] = "lookedup" /\ w[1] \in {"gone", "vanish"}) /\ ~(w[1] \in {"gone", "vanish"} /\ v[1] \in {"gone", "vanish"})
                            /\ ~(w[1] = "lookedup" /\ v[1] \in {"gone", "vanish"})
                            /\ v[1] # "settle" /\ w[1] # "settle"
                 IN IF two THEN /\ out' = out \o (IF swap THEN <<"race", Text(v), Text(w)>> ELSE <<"race", Text(w), Text(v)>>) /\ s' = Apply(s, IF swap THEN <<v, w>> ELSE <<w, v>>) /\ ng' = IF Groups(w) > ng THEN Groups(w) ELSE Groups(v)
                    ELSE /\ out' = Append(out, Text(w)) /\ s' = Apply(s, <<w>>) /\ ng' = Groups(w)
           /\ UNCHANGED left
        \/ /\ n = Length /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out \o <<"settle">>)>>)
           /\ UNCHANGED << s, n, out, ng, left>>
Spec == Init /\ [][Next]_vars
=============================================================================
