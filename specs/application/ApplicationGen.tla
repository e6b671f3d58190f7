--------------------------- MODULE ApplicationGen ---------------------------
(* What an application and its world do, drawn at random from the behaviours  *)
(* of Application (used with -simulate).                                      *)
EXTENDS Application, Json, Randomization

CONSTANTS Kinds, Length, Mode, XaCodes, States, Codes, TmCodes

VARIABLES s, n, out, done, fr, sv, live, dn
vars == << s, n, out, done, fr, sv, live, dn>>

R(i, j) == RandomElement(i..j)
Pick(q) == q[R(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
S(x) == ToString(x)

Rms == << << <<1>>, <<1>>>>, << <<1, 2>>, <<1, 2>>>>, << <<1>>, <<1, 2>>>>, << <<>>, <<>>>>, << <<>>, <<1>>>>, << <<1, 2>>, <<1, 2, 3>>>>, << <<1>>, <<1, 2, 3>>>>>>
Init == /\ \E q \in {Pick(Rms)}, m \in {Pick(Mode)} :
           /\ s = Init0(m, q[1], q[2])
           /\ out = << "boot " \o m \o " " \o (IF q[2] = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "",
                              [i \in DOMAIN q[2] |-> S(q[2][i]) \o (IF Contains(q[1], q[2][i]) THEN ":f" ELSE ":d")]))>>
        /\ n = 0 /\ done = FALSE /\ fr = 1 /\ sv = 500 /\ live = {} /\ dn = 0

Top == IF s.code = <<>> THEN "idle" ELSE Head(s.code).k
Free2 == (s.mode = "client" /\ Top = "idle") \/ Top = "app"
Idle == s.mode = "server" /\ Top = "idle"
Slots(P(_)) == {k \in DOMAIN s.slot : P(s.slot[k])}
Calls == {k \in DOMAIN s.slot : k # "0" /\ N(k) < 500 /\ ValidCd(s, s.slot[k])}
Convs == {k \in DOMAIN s.slot : (k = "0" \/ N(k) >= 500) /\ ValidCv(s, s.slot[k] + 1)}
SomeCall(z) == IF Calls # {} /\ R(1, 12) > 1 THEN RandomElement(Calls) ELSE S(R(1, 9))
SomeConv(z) == IF Convs # {} /\ R(1, 12) > 1 THEN RandomElement(Convs) ELSE S(R(500, 509))
In(P(_)) == \E i \in DOMAIN s.inbox : P(s.inbox[i])
Arrived(x) == In(LAMBDA m : m.n = x)
(* the conversations where the other side has something to say *)
Open == {s.cv[i].n : i \in {j \in DOMAIN s.cv : s.cv[j].n # 0 /\ (s.cv[j].ini => s.cv[j].n \in live)}}
Ended(x) == In(LAMBDA m : m.n = x /\ (m.k # "send" \/ m.code # "absent" \/ m.dup = "send"))
Cv(x) == s.cv[CHOOSE j \in DOMAIN s.cv : s.cv[j].n = x]
Talk == {x \in Open : ~Ended(x)}
Waiting == {x \in live : x \notin {s.cv[j].n : j \in DOMAIN s.cv} /\ ~Arrived(x)}
New(z) == "d" \o S(dn)
Usable == {k \in 1..40 : S(k) \notin Calls}
UsableCv == {k \in 500..509 : S(k) \notin Convs}
CallFlags == << "-", "-", "-", "-", "notran", "noblock", "noreply">>
AcallFlags == << "-", "-", "-", "notran", "notran,noreply", "noreply">>
RmAny(z) == IF Len(s.all) > 0 /\ R(1, 15) > 1 THEN Pick(s.all) ELSE R(1, 3)
Dyn == {s.all[i] : i \in DOMAIN s.all} \ {s.fix[i] : i \in DOMAIN s.fix}
RmDyn(z) == IF Dyn # {} /\ R(1, 15) > 1 THEN RandomElement(Dyn) ELSE R(1, 3)

Can(k) ==
  CASE k \in {"begin", "commit", "rollback", "suspend", "resume", "control", "stack", "creturn", "timeout", "call", "acall", "connect", "cancel", "axreg", "axunreg", "getrply", "any",
              "send", "recv", "discon"} -> Free2 /\ ~(k \in {"acall"} /\ Usable = {}) /\ ~(k = "connect" /\ UsableCv = {})
    [] k \in {"return", "forward"} -> Top = "app" /\ ~(k = "forward" /\ s.srv.conv)
    [] k \in {"serve", "converse"} -> Idle
    [] k = "xa" -> Len(s.plan) < 2 /\ s.all # <<>> /\ Top # "wlookup"
    [] k = "lookup" -> Top = "wlookup"
    [] k = "tm" -> s.tmd \/ Top \in {"wcommit", "wcommit2", "wrollback", "wjoin", "wreg"}
    [] k = "reply" -> Waiting # {}
    [] k = "connected" -> Top = "wconn"
    [] k = "say" -> Talk # {}
    [] k = "gone" -> s.gone = {} /\ Free2
    [] OTHER -> FALSE
(* something that always can be done *)
Default == CASE Free2 -> IF Top = "app" THEN "return" ELSE "begin" [] Idle -> "serve" [] Top = "wlookup" -> "lookup" [] Top = "wconn" -> "connected"
             [] Top = "reply" -> "reply" [] Top = "recv" -> "say" [] OTHER -> "tm"

Op2(k, q) == <<"op", S(fr), k>> \o q
Tran == Pick(States)
Blockable(k) == LET i == Slot(s, k) IN ~ValidCd(s, i) \/ (s.cd[i] \in Waiting \ s.disc) \/ Arrived(s.cd[i])
The(x) == CHOOSE y \in x : TRUE
Say(x) ==
  LET v == Cv(x)
      more == <<"send", S(x), Pick(<<"send", "receive">>), "absent", "0", "ok", New(0)>>
      gone == <<"reply", S(x), "service_error", "0", "ok">>
  IN The({IF ~v.ini THEN IF v.dup = "receive" /\ p > 5 THEN more ELSE <<"disconnect", S(x)>>
          ELSE IF v.dup = "receive"
          THEN IF p <= 3 THEN gone
               ELSE IF p <= 12 THEN <<"send", S(x), "terminated", Pick(<<"ok", "ok", "service_fail", "service_error">>), S(R(0, 4)), Tran, New(0)>> ELSE more
          ELSE IF p <= 5 THEN gone ELSE <<"send", S(x), "terminated", Pick(<<"service_fail", "service_error">>), S(R(0, 4)), Pick(<<"rollback", "error">>), New(0)>> : p \in {R(1, 30)}})
Words(k) ==
  CASE k \in {"begin", "commit", "rollback"} -> Op2(k, <<>>)
    [] k \in {"suspend", "resume"} -> Op2(k, <<S(R(1, 3))>>)
    [] k = "control" -> Op2(k, <<Pick(<<"0", "1", "42">>)>>)
    [] k = "stack" -> Op2("control", <<"42">>)
    [] k \in {"creturn", "timeout"} -> Op2(k, <<S(R(0, 1))>>)
    [] k = "axreg" -> Op2(k, <<S(RmDyn(0))>>)
    [] k = "axunreg" -> Op2(k, <<S(RmDyn(0))>>)
    [] k = "call" -> Op2(k, <<"svc", Pick(CallFlags), New(0)>>)
    [] k = "acall" -> Op2(k, <<S(Min(Usable)), "svc", Pick(AcallFlags), New(0)>>)
    [] k = "getrply" -> The({Op2(k, IF Blockable(c) /\ R(1, 4) > 1 THEN <<c, "-">> ELSE <<c, "noblock">>) : c \in {SomeCall(0)}})
    [] k = "any" -> Op2("getrply", <<"any", IF (Waiting \ s.disc # {} \/ In(LAMBDA m : m.k = "reply")) /\ R(1, 4) > 1 THEN "any" ELSE "any,noblock">>)
    [] k = "cancel" -> Op2(k, <<SomeCall(0)>>)
    [] k = "connect" -> Op2(k, <<S(Min(UsableCv)), "svc", Pick(<<"sendonly", "recvonly", "sendonly", "recvonly", "notran,sendonly", "notran,recvonly", "-", "sendonly,recvonly">>), New(0)>>)
    [] k = "send" -> Op2(k, <<SomeConv(0), Pick(<<"-", "recvonly", "noblock">>), New(0)>>)
    [] k = "recv" -> The({Op2(k, <<c, IF R(1, 3) = 1 \/ (ValidCv(s, CvSlot(s, c)) /\ s.cv[CvSlot(s, c)].n \notin Talk /\ ~Arrived(s.cv[CvSlot(s, c)].n)) THEN "noblock" ELSE "-">>) : c \in {SomeConv(0)}})
    [] k = "discon" -> Op2(k, <<SomeConv(0)>>)
    [] k = "return" -> Op2(k, <<Pick(<<"success", "success", "success", "fail">>), S(R(0, 5)), New(0)>>)
    [] k = "forward" -> Op2(k, <<"svcf", New(0)>>)
    [] k = "serve" -> <<"serve", S(sv), Pick(<<"automatic", "automatic", "join", "atomic", "none", "branch">>), Pick(<<"0", S(sv + 400)>>), S(Pick(<<0, 0, 0, 1>>)), S(fr)>>
    [] k = "converse" -> <<"converse", S(sv), Pick(<<"automatic", "automatic", "join", "atomic", "none", "branch">>), Pick(<<"0", S(sv + 400)>>), Pick(<<"send", "receive">>), S(fr)>>
    [] k = "xa" -> The({<<"xa", S(RmAny(0)), en, Pick(XaCodes[en])>> : en \in {Pick(<<"start", "end", "commit", "rollback">>)}})
    [] k = "lookup" -> LET i == Head(s.code).n IN IF R(1, 10) > 1 THEN <<"lookup", S(i), "idle", S(R(1, 3))>> ELSE <<"lookup", S(i), Pick(<<"absent", "timeout">>)>>
    [] k = "tm" -> CASE Top \in {"wjoin", "wreg"} -> <<"tm", "ok", "-", Csv(RandomSubset(R(0, Len(s.all)), {s.all[i] : i \in DOMAIN s.all}))>>
                     [] Top = "wcommit" -> <<"tm", Pick(TmCodes), Pick(<<"commit", "commit", "prepare", "prepare", "rollback">>)>>
                     [] OTHER -> <<"tm", Pick(TmCodes), "commit">>
    [] k = "reply" -> LET on == IF Top = "reply" /\ ~Head(s.code).any THEN s.cd[IF Head(s.code).cd = 0 THEN s.cdi ELSE Head(s.code).cd] ELSE 0
                          set == IF on \in Waiting THEN {on} ELSE IF Top = "reply" /\ Waiting \ s.disc # {} THEN {RandomElement(Waiting \ s.disc)} ELSE {RandomElement(Waiting)}
                      IN The({ \* the states that are bad come with codes that are bad, most of the time
                         IF R(1, 3) > 1 THEN <<"reply", S(x), "ok", S(R(0, 4)), "ok">> ELSE <<"reply", S(x), Pick(Codes), S(R(0, 4)), Tran>> : x \in set})
    [] k = "connected" -> Pick(<< <<"reply", S(Head(s.code).n), "service_error", "0", "ok">>, <<"send", S(Head(s.code).n), "terminated", "service_error", "0", Tran, "-">> >>
                             \o [i \in 1..14 |-> <<"connected", S(Head(s.code).n), "ok">>]
                             \o [i \in 1..3 |-> <<"connected", S(Head(s.code).n), <<"no_entry", "service_error", "timeout">>[i]>>])
    [] k = "say" -> The({Say(x) : x \in {IF Top = "recv" /\ s.cv[Head(s.code).cv].n \in Talk THEN s.cv[Head(s.code).cv].n ELSE RandomElement(Talk)}})
    [] k = "gone" -> <<"gone", S(R(1, 3))>>

(* the calls that are to be answered *)
Started(q) == {N(q[i][3]) : i \in {j \in DOMAIN q : q[j][1] = "call" /\ q[j][6] = "-" /\ N(q[j][3]) < 500}}
Step(w) ==
  \E x \in {Apply(s, w)} :
    /\ s' = x.s /\ out' = Append(out, Cat(w)) /\ dn' = dn + 1
    /\ fr' = IF x.s.used /\ x.s.fresh = fr THEN fr + 1 ELSE fr
    /\ sv' = IF w[1] \in {"serve", "converse"} THEN sv + 1 ELSE sv
    /\ live' = (live \cup Started(x.out) \cup (IF w[1] = "connected" /\ w[3] = "ok" THEN {N(w[2])} ELSE {})) \ (IF w[1] = "reply" THEN {N(w[2])} ELSE {})
Next == \/ /\ n < Length /\ sv < 545 /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..4 |-> Pick(Kinds)]} :
               LET can == {i \in 1..4 : Can(ks[i])}
               IN \E w \in {Words(IF can = {} THEN Default ELSE ks[Min(can)])} : Step(w)
        \/ /\ (n = Length \/ sv >= 545) /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(Append(out, "settle"))>>)
           /\ UNCHANGED << s, n, out, fr, sv, live, dn>>
Spec == Init /\ [][Next]_vars
=============================================================================
