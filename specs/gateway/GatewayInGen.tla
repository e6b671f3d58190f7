--------------------------- MODULE GatewayInGen ---------------------------
(* What other domains ask of an inbound group, and what this domain answers, *)
(* drawn at random from the behaviours of GatewayIn (used with -simulate).   *)
EXTENDS GatewayIn, Json

CONSTANTS Kinds, Length, MaxCons

VARIABLES s, n, out, id, done, ask, late
vars == << s, n, out, id, done, ask, late>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)

Init == s = Init0 /\ out = <<"boot">> /\ n = 0 /\ id = 1 /\ done = FALSE /\ ask = <<>> /\ late = <<>>

AnyC(c) == IF s.up # {} THEN RandomElement(s.up) ELSE 1
Closed == (1..MaxCons) \ s.up
Tasks(P(_)) == SelectSeq(s.tasks, P)
Unlooked(kinds) == SelectSeq(s.tasks, LAMBDA t : t.kind \in kinds /\ t.at = "")
Branching == SelectSeq(late, LAMBDA t : t.c \in s.up /\ t.inc = s.inc[t.c])
Going(kinds) == SelectSeq(s.tasks, LAMBDA t : t.kind \in kinds /\ Passed(t))
Of(kinds) == SelectSeq(s.tasks, LAMBDA t : t.kind \in kinds)
Asked(kinds) == SelectSeq(ask, LAMBDA a : a.k \in kinds /\ a.c \in s.up /\ a.inc = s.inc[a.c])
(* mostly those that are outstanding *)
Answer(q, F(_)) == IF q # <<>> /\ RR(1, 12) > 1 THEN F(Pick(q)) ELSE F([id |-> RR(1, id), c |-> AnyC(0), trid |-> RR(1, 2), svc |-> "s1", kind |-> "prepare"])
Trid(z) == S(Pick(<<0, 0, 0, 1, 1, 2, 101, 202>>))
Code(z) == Pick(<<"OK", "OK", "OK", "TPESVCFAIL", "TPESVCERR", "TPENOENT", "TPESYSTEM">>)
Lists == <<"-", "s1", "s2", "s1,s2">>
Qs == <<"-", "q1", "q2", "q1,q2">>
Ended(k) == CASE k = "prepare" -> "prepared" [] k = "commit" -> "committed" [] OTHER -> "rolledback"

Can(k) ==
  CASE k = "open" -> s.run = "running" /\ \E c \in Closed : Listener(c) \in s.listens
    [] k \in {"lookedup"} -> Unlooked({"call", "connect"}) # <<>>
    [] k \in {"qlookedup"} -> Unlooked({"enqueue", "dequeue"}) # <<>>
    [] k = "branched" -> Branching # <<>>
    [] k \in {"csend", "rsend"} -> Of({"connect"}) # <<>>
    [] k = "enqueued" -> Asked({"enqueue"}) # <<>>
    [] k = "dequeued" -> Asked({"dequeue"}) # <<>>
    [] k = "dreply" -> s.asked # {}
    [] k = "prepared" -> Of({"prepare", "commit", "rollback"}) # <<>>
    [] k \in ExternalOps \cup InternalOps -> s.up # {}
    [] k = "remove" -> s.run = "running" /\ s.listens # {}
    [] k = "add" -> s.run = "running" /\ s.listens # {1, 2}
    [] k = "shutdown" -> s.run = "running"
    [] OTHER -> TRUE

Words(k) ==
  CASE k = "open" -> <<k, S(RandomElement({c \in Closed : Listener(c) \in s.listens})), S(Pick(<<0, 1, 2, 3, 4, 4>>))>>
    [] k = "call" -> <<k, S(AnyC(0)), S(id), Pick(<<"s1", "s2">>), Trid(0), Pick(<<"0", "0", "0", "1">>)>>
    [] k = "connect" -> <<k, S(AnyC(0)), S(id), Pick(<<"s1", "s2">>), Trid(0), Pick(<<"send", "receive">>)>>
    [] k = "csend" -> Answer(Of({"connect"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"send", "receive">>)>>)
    [] k = "cdisconnect" -> Answer(Of({"connect"}), LAMBDA t : <<k, S(t.c), S(t.id)>>)
    [] k \in {"enqueue", "dequeue"} -> <<k, S(AnyC(0)), S(id), Pick(<<"q1", "q2">>), Trid(0)>>
    [] k \in {"prepare", "commit", "rollback"} -> <<k, S(AnyC(0)), S(id), S(IF Known(s) # {} /\ RR(1, 8) > 1 THEN RandomElement(Known(s)) ELSE RR(1, 2))>>
    [] k = "discover" -> <<k, S(AnyC(0)), S(id), Pick(Lists), Pick(Qs)>>
    [] k = "lookedup" -> CHOOSE w \in {<<k, S(t.c), S(t.id), x, Pick(<<t.svc, t.svc, "sx">>), IF x = "idle" THEN Pick(<<"sv1", "sv1", "sv2", "sv2", "gone">>) ELSE "-">> :
                              t \in {Pick(Unlooked({"call", "connect"}))}, x \in {Pick(<<"idle", "idle", "idle", "idle", "idle", "idle", "absent", "timeout">>)}} : TRUE
    [] k = "qlookedup" -> CHOOSE w \in {<<k, S(t.c), S(t.id), t.svc, Pick(IF t.more = "1" THEN <<"qg", "qg", "qg", "-">> ELSE <<"qg", "qg", "qg", "-", "gone">>)>> : t \in {Pick(Unlooked({"enqueue", "dequeue"}))}} : TRUE
    [] k = "branched" -> CHOOSE w \in {<<k, S(t.c), S(t.id), S(t.g)>> : t \in {Pick(Branching)}} : TRUE
    [] k = "reply" -> Answer(Going({"call"}), LAMBDA t : <<k, S(t.c), S(t.id), Code(0)>>)
    [] k = "connected" -> Answer(Going({"connect"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"OK", "OK", "OK", "TPENOENT", "TPESVCERR">>)>>)
    [] k = "rsend" -> Answer(Going({"connect"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"send", "receive", "terminated">>)>>)
    [] k = "enqueued" -> Answer(Asked({"enqueue"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"1", "1", "0">>)>>)
    [] k = "dequeued" -> Answer(Asked({"dequeue"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(<<"1", "1", "0">>)>>)
    [] k = "prepared" -> Answer(Of({"prepare", "commit", "rollback"}), LAMBDA t : <<Ended(t.kind), S(t.c), S(t.id), S(G(t.trid)), Pick(<<"XA_OK", "XA_OK", "XA_RDONLY", "XAER_PROTO", "XAER_RMFAIL">>)>>)
    [] k = "discovered" -> Answer(Asked({"discover"}), LAMBDA t : <<k, S(t.c), S(t.id), Pick(Lists), Pick(Qs)>>)
    [] k = "update" -> <<k, S(AnyC(0))>>
    [] k \in {"lost", "reset"} -> <<k, S(AnyC(0))>>
    [] k = "dreply" -> <<k, S(RandomElement(s.asked))>>
    [] k = "disassociate" -> <<k, IF Known(s) # {} THEN S(RandomElement(Known(s))) ELSE S(RR(1, 2))>>
    [] k \in {"remove"} -> <<k, S(RandomElement(s.listens))>>
    [] k = "add" -> <<k, S(RandomElement({1, 2} \ s.listens))>>
    [] OTHER -> <<k>>

Numbered == {"call", "connect", "enqueue", "dequeue", "prepare", "commit", "rollback", "discover"}
Default == IF Can("open") THEN "open" ELSE "settle"
Next == \/ /\ n < Length /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..4 |-> Pick(Kinds)]} :
                LET can == {i \in 1..4 : Can(ks[i])}
                IN \E k \in {IF s.run = "exited" THEN "settle" ELSE IF can = {} THEN Default ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]} :
                   \E w \in {Words(k)} :
                   \E q \in {Apply(s, w)} :
                      /\ out' = Append(out, Cat(w)) /\ s' = Rest(q.s).s
                      /\ id' = IF w[1] \in Numbered THEN id + 1 ELSE id
                      /\ ask' = IF w[1] \in {"enqueue", "dequeue", "discover"} /\ Num(w[2]) \in s.up THEN Append(ask, [k |-> w[1], id |-> id, c |-> Num(w[2]), inc |-> s.inc[Num(w[2])]]) ELSE ask
                      (* branches that have been asked for *)
                      /\ late' = LET asks == SelectSeq(q.out, LAMBDA r : r[1] = "tm" /\ r[2] = "branch")
                                 IN IF asks # <<>> THEN Append(late, [id |-> id, c |-> Num(w[2]), g |-> Num(asks[1][5]), inc |-> s.inc[Num(w[2])]])
                                    ELSE IF w[1] = "branched" THEN Without(late, LAMBDA t : t.id = Num(w[3])) ELSE late
        \/ /\ n = Length /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out \o <<"settle">>)>>)
           /\ UNCHANGED << s, n, out, id, ask, late>>
Spec == Init /\ [][Next]_vars
=============================================================================
