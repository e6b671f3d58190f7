---------------------------- MODULE GatewayInMC ----------------------------
(* GatewayIn explored in full for a few connections and requests: what the    *)
(* design guarantees.                                                         *)
EXTENDS GatewayIn

CONSTANTS Links, MaxSteps, Ops, Trids

(* asked: (connection, incarnation, request), got: what has been answered. held: reservations (request). open: conversations of servers. *)
(* branches: asked for and not known yet                                                                                                *)
VARIABLES s, n, id, asked, got, held, open, branches, inwards
vars == << s, n, id, asked, got, held, open, branches, inwards>>
Init == s = Init0 /\ n = 0 /\ id = 1 /\ asked = {} /\ got = <<>> /\ held = {} /\ open = {} /\ branches = {} /\ inwards = TRUE

IsTcp(r) == r[1] \notin {"sm", "tm", "qm", "dm", "gm", "disc", "sv", "qg"}
Final(r) == r[2] \in {"reply", "enqueued", "prepared"} \/ (r[2] = "send" /\ r[4] = "terminated") \/ (r[2] = "connected" /\ r[4] # "OK")
Finals(rows) == SelectSeq(rows, LAMBDA r : IsTcp(r) /\ Final(r))
Rows(rows, who, what) == {Num(rows[i][3]) : i \in {j \in DOMAIN rows : rows[j][1] = who /\ rows[j][2] = what}}
Do(w, more, hold) ==
  \E r \in {LET q == Apply(s, w) t == Rest(q.s) IN R(t.s, q.out \o t.out)} :
    /\ s' = r.s /\ n' = n + 1
    /\ asked' = asked \cup more
    /\ got' = got \o [i \in DOMAIN Finals(r.out) |-> <<Finals(r.out)[i][1], Num(Finals(r.out)[i][3])>>] \o (IF w[1] = "cdisconnect" THEN << <<Tcp(s, Num(w[2])), Num(w[3])>> >> ELSE <<>>)
    (* a reservation is used by the call, or given back *)
    /\ held' = ((held \cup hold) \ {Num(r.out[i][4]) : i \in {j \in DOMAIN r.out : r.out[j][1] = "sv" /\ r.out[j][2] \in {"call", "connect"}}}) \ {Num(r.out[i][3]) : i \in {j \in DOMAIN r.out : r.out[j][1] = "sm" /\ r.out[j][2] = "discard"}}
    (* a conversation of a server ends when one of the sides ends it, or when the connection is no more *)
    /\ open' = (open \cup {Num(r.out[i][4]) : i \in {j \in DOMAIN r.out : r.out[j][1] = "sv" /\ r.out[j][2] = "connect"}})
               \ ({Num(r.out[i][3]) : i \in {j \in DOMAIN r.out : r.out[j][1] = "sv" /\ r.out[j][2] = "disconnect"}}
                  \cup {Num(r.out[i][3]) : i \in {j \in DOMAIN r.out : IsTcp(r.out[j]) /\ r.out[j][2] \in {"send", "connected"} /\ r.out[j][4] \in {"terminated", "TPENOENT"}}})
    (* what is passed on is in the transaction as it is known in this domain *)
    /\ inwards' = (inwards /\ \A i \in DOMAIN r.out : (r.out[i][1] = "sv" /\ r.out[i][2] \in {"call", "connect"}) => LET ts == {a[3] : a \in {x \in asked : x[2] = Num(r.out[i][4])}} IN
                     ts # {} => r.out[i][7] \in {IF t = 0 THEN "0" ELSE S(Inner(t)) : t \in ts})
    /\ branches' = {b \in (branches \cup {<<id, Num(w[2]), Num(r.out[i][5]), Label(s, Num(w[2]))>> : i \in {j \in DOMAIN r.out : r.out[j][1] = "tm" /\ r.out[j][2] = "branch"}}) :
                       b[2] \in r.s.up /\ Label(r.s, b[2]) = b[4] /\ ~(w[1] = "branched" /\ Num(w[3]) = b[1])}
Just(w) == Do(w, {}, {}) /\ id' = id
Req(w, t) == Do(w, {<<Tcp(s, Num(w[2])), id, t>>}, {}) /\ id' = id + 1
On(k) == k \in Ops
Tasks(kinds) == {s.tasks[i] : i \in {j \in DOMAIN s.tasks : s.tasks[j].kind \in kinds}}
Next == /\ n < MaxSteps /\ s.run # "exited"
        /\ \/ \E c \in Links \ s.up : s.run = "running" /\ s.inc[c] = 0 /\ Just(<<"open", S(c), "4">>)
           \/ \E c \in s.up :
              \/ \E t \in Trids, nr \in {"0", "1"} : On("call") /\ (IF nr = "0" THEN Req(<<"call", S(c), S(id), "s1", S(t), "0">>, t) ELSE Do(<<"call", S(c), S(id), "s1", S(t), "1">>, {}, {}) /\ id' = id + 1)
              \/ \E t \in Trids : On("connect") /\ Req(<<"connect", S(c), S(id), "s1", S(t), "send">>, t)
              \/ \E t \in Trids : On("enqueue") /\ Req(<<"enqueue", S(c), S(id), "q1", S(t)>>, t)
              \/ \E g \in {G(x) : x \in Trids \ {0}} : On("prepare") /\ Req(<<"prepare", S(c), S(id), S(g)>>, g)
              \/ On("lost") /\ Just(<<"lost", S(c)>>)
           \/ \E t \in Tasks({"call", "connect"}) : t.at = "" /\ (Do(<<"lookedup", S(t.c), S(t.id), "idle", "s1", "sv">>, {}, {t.id}) \/ Do(<<"lookedup", S(t.c), S(t.id), "absent", "s1", "-">>, {}, {})) /\ id' = id
           \/ \E t \in Tasks({"enqueue"}), g \in {"qg", "-"} : t.at = "" /\ Just(<<"qlookedup", S(t.c), S(t.id), "q1", g>>)
           \/ \E t \in Tasks({"enqueue"}) : Passed(t) /\ Just(<<"enqueued", S(t.c), S(t.id), "1">>)
           \/ \E b \in branches : Just(<<"branched", S(b[2]), S(b[1]), S(b[3])>>)
           \/ \E t \in Tasks({"call"}) : Passed(t) /\ Just(<<"reply", S(t.c), S(t.id), "OK">>)
           \/ \E t \in Tasks({"connect"}) : \/ Passed(t) /\ (Just(<<"connected", S(t.c), S(t.id), "TPENOENT">>) \/ Just(<<"rsend", S(t.c), S(t.id), "terminated">>))
                                            \/ Just(<<"cdisconnect", S(t.c), S(t.id)>>)
           \/ \E t \in Tasks({"prepare"}) : Just(<<"prepared", S(t.c), S(t.id), S(G(t.trid)), "XA_OK">>)
           \/ \E g \in Known(s) : On("shutdown") /\ Just(<<"disassociate", S(g)>>)
           \/ \E c \in s.asked \ s.going : Just(<<"dreply", S(c)>>)
           \/ On("shutdown") /\ s.run = "running" /\ Just(<<"shutdown">>)
Spec == Init /\ [][Next]_vars

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Live(a) == \E c \in s.up : Tcp(s, c) = a[1]
Inv == TypeInv(s)
(* a request is answered once: it is outstanding or answered - as long as there is a connection to answer at *)
Once == \A a \in asked : Count(got, <<a[1], a[2]>>) <= 1 /\ (Has(s, a[2]) => Count(got, <<a[1], a[2]>>) = 0)
        /\ (Live(a) => (Has(s, a[2]) \/ Count(got, <<a[1], a[2]>>) = 1))
Wanted == \A i \in DOMAIN got : \E a \in asked : a[1] = got[i][1] /\ a[2] = got[i][2]
Leaves == Settled(s)
Gone == s.run = "exited" => held = {} /\ open = {}
(* reservations and conversations of requests that are no more are given back *)
Returned == (\A h \in held : Has(s, h)) /\ (\A o \in open : Has(s, o))
Inwards == inwards
View == << s, n, id, asked, got, held, open, branches, inwards>>
=============================================================================
