--------------------------- MODULE GatewayOutGen ---------------------------
(* What is asked of an outbound group, and what the other domains answer,    *)
(* drawn at random from the behaviours of GatewayOut (used with -simulate).  *)
EXTENDS GatewayOut, Json, SequencesExt

CONSTANTS Kinds, Length, MaxCons

VARIABLES s, n, out, id, done, ask
vars == << s, n, out, id, done, ask>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
The1(x) == CHOOSE y \in x : TRUE

Init == /\ \E k \in {RR(1, MaxCons)}, o \in {RR(0, 2)} : s = Init0(k, o) /\ out = << "boot " \o S(k) \o " " \o S(o)>>
        /\ n = 0 /\ id = 1 /\ done = FALSE /\ ask = {}

AnyC(c) == IF s.up # {} THEN RandomElement(s.up) ELSE 1
(* mostly requests that are outstanding *)
Wants(kinds) == SelectSeq(s.tasks, LAMBDA t : t.kind \in kinds)
Caller(z) == Pick(<<"c1", "c2", "c3">>)
Trid(z) == S(Pick(<<0, 0, 1, 2, 3, 101, 202>>))
Svc(z) == Pick(<<"s1", "s2">>)
Lists == <<"-", "s1", "s2", "s1,s2">>
Qs == <<"-", "q1", "q2", "q1,q2">>
Answer(kinds, F(_)) == IF Wants(kinds) # <<>> /\ RR(1, 12) > 1 THEN F(Pick(Wants(kinds))) ELSE F([id |-> RR(1, id), c |-> AnyC(0)])
(* what is in question with other domains: (kind, id, connection, trid) *)
Asked(kinds) == {a \in ask : a.k \in kinds /\ a.c \in s.up /\ \E d \in s.dests : d.id = a.id}
Code(z) == Pick(<<"OK", "OK", "OK", "TPESVCFAIL", "TPESVCERR", "TPENOENT", "TPESYSTEM">>)

Can(k) ==
  CASE k \in {"accept", "refuse"} -> s.run = "running" /\ s.pend # {}
    [] k \in InternalOps \ {"prepare", "commit", "rollback"} -> s.up # {}
    [] k \in {"prepare", "commit", "rollback"} -> s.up # {}
    [] k \in ExternalOps \ {"prepared", "discovered"} -> s.up # {}
    [] k = "reset" -> s.up # {}
    [] k = "prepared" -> Asked({"prepare", "commit", "rollback"}) # {}
    [] k = "discovered" -> Asked({"discover"}) # {}
    [] k = "explored" -> s.up # {}
    [] k = "remove" -> s.run = "running" /\ s.cfg # {}
    [] k = "add" -> s.run = "running" /\ s.cfg # 1..4
    [] k \in {"order", "shutdown"} -> s.run = "running"
    [] k \in {"disassociate", "settle"} -> TRUE
    [] OTHER -> FALSE

Words(k) ==
  CASE k = "accept" -> <<k, S(RandomElement(s.pend)), S(RR(0, 4))>>
    [] k = "refuse" -> <<"accept", S(RandomElement(s.pend)), Pick(<<"refuse", "bad">>)>>
    [] k = "call" -> IF RR(1, 25) = 1 /\ Wants({"call"}) # <<>> THEN <<k, S(AnyC(0)), S(Pick(Wants({"call"})).id), Caller(0), Svc(0), Trid(0), "0">>
                     ELSE <<k, S(AnyC(0)), S(id), Caller(0), Svc(0), Trid(0), Pick(<<"0", "0", "0", "1">>)>>
    [] k = "connect" -> <<k, S(AnyC(0)), S(id), Caller(0), Svc(0), Trid(0), Pick(<<"send", "receive">>)>>
    [] k = "csend" -> Answer({"connect"}, LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"send", "receive">>)>>)
    [] k = "cdisconnect" -> Answer({"connect"}, LAMBDA t : <<k, S(t.c), S(t.id)>>)
    [] k \in {"enqueue", "dequeue"} -> <<k, S(AnyC(0)), S(id), Caller(0), Pick(<<"q1", "q2">>), Trid(0)>>
    [] k \in {"prepare", "commit", "rollback"} ->
         IF s.assoc # {} /\ RR(1, 8) > 1 THEN The1({<<k, S(a[2]), S(id), S(a[1])>> : a \in {RandomElement(s.assoc)}}) ELSE <<k, S(AnyC(0)), S(id), S(RR(1, 3))>>
    [] k = "discover" -> <<k, S(AnyC(0)), S(id), Pick(<<"c1", "disc">>), Pick(Lists), Pick(Qs)>>
    [] k = "explore" -> <<k, S(AnyC(0)), Pick(Lists), Pick(Qs)>>
    [] k = "reply" -> Answer({"call"}, LAMBDA t : <<k, S(t.c), S(t.id), Code(0)>>)
    [] k = "connected" -> Answer({"connect"}, LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"OK", "OK", "OK", "OK", "TPENOENT", "TPESVCERR">>)>>)
    [] k = "rsend" -> Answer({"connect"}, LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"send", "receive", "terminated">>)>>)
    [] k = "enqueued" -> Answer({"enqueue"}, LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"1", "1", "0">>)>>)
    [] k = "dequeued" -> Answer({"dequeue"}, LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"1", "1", "0">>)>>)
    [] k = "prepared" -> The1({<<CASE a.k = "prepare" -> "prepared" [] a.k = "commit" -> "committed" [] OTHER -> "rolledback", S(a.c), S(a.id), S(a.t),
                                 Pick(<<"XA_OK", "XA_OK", "XA_OK", "XA_RDONLY", "XAER_PROTO", "XAER_RMFAIL">>)>> : a \in {RandomElement(Asked({"prepare", "commit", "rollback"}))}})
    [] k = "discovered" -> The1({<<k, S(a.c), S(a.id), Pick(Lists), Pick(Qs)>> : a \in {RandomElement(Asked({"discover"}))}})
    [] k = "explored" -> <<"discovered", S(AnyC(0)), "0", Pick(Lists), Pick(Qs)>>
    [] k = "update" -> <<k, S(AnyC(0)), S(RR(0, 1))>>
    [] k \in {"rdisconnect", "lost", "reset"} -> <<k, S(AnyC(0))>>
    [] k = "disassociate" -> <<k, IF s.assoc # {} THEN S((RandomElement(s.assoc))[1]) ELSE S(RR(1, 3))>>
    [] k = "order" -> <<k, S(RR(0, 2))>>
    [] k = "remove" -> <<k, S(RandomElement(s.cfg))>>
    [] k = "add" -> <<k, S(RandomElement((1..4) \ s.cfg))>>
    [] OTHER -> <<k>>

Numbered == {"call", "connect", "enqueue", "dequeue", "prepare", "commit", "rollback", "discover"}
Note(a, w, i) == IF w[1] \in {"prepare", "commit", "rollback", "discover"}
              THEN a \cup {[k |-> w[1], id |-> i, c |-> Num(w[2]), t |-> IF w[1] = "discover" THEN 0 ELSE Num(w[4])]} ELSE a
Default == IF s.run = "running" /\ s.pend # {} THEN "accept" ELSE "settle"
(* the state after a step is the one of the outcome *)
Sta(w) == LET q == Apply(s, w) IN Rest(q.s).s
Next == \/ /\ n < Length /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..4 |-> Pick(Kinds)]} :
                LET can == {i \in 1..4 : Can(ks[i])}
                IN \E k \in {IF s.run = "exited" THEN "settle" ELSE IF can = {} THEN Default ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]} :
                   \E w \in {Words(k)} :
                      /\ out' = Append(out, Cat(w)) /\ s' = [Sta(w) EXCEPT !.owed = <<>>]
                      /\ id' = IF w[1] \in Numbered THEN id + 1 ELSE id
                      /\ ask' = Note(ask, w, id)
        \/ /\ n = Length /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out \o <<"settle">>)>>)
           /\ UNCHANGED << s, n, out, id, ask>>
Spec == Init /\ [][Next]_vars
=============================================================================
