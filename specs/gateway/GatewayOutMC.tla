---------------------------- MODULE GatewayOutMC ----------------------------
(* GatewayOut explored in full for a few connections and requests: what the   *)
(* design guarantees.                                                         *)
EXTENDS GatewayOut

CONSTANTS Links, MaxSteps, Ops, Trids

VARIABLES s, n, id, asked, got, known
vars == << s, n, id, asked, got, known>>

Init == /\ s = Init0(Cardinality(Links), 0) /\ n = 0 /\ id = 1 /\ asked = <<>> /\ got = <<>> /\ known = {}

(* what ends a request *)
Final(r) == r[2] \in {"reply", "enqueued", "dequeued"} \/ (r[2] = "send" /\ r[4] = "terminated") \/ (r[2] = "connected" /\ r[4] # "OK")
Finals(rows) == SelectSeq(rows, LAMBDA r : r[1] \in {"c1", "c2"} /\ Final(r))
Do(w, more) ==
  \E r \in {LET q == Apply(s, w) t == Rest(q.s) IN R(t.s, q.out \o t.out)} :
    /\ s' = [r.s EXCEPT !.owed = <<>>]
    /\ asked' = asked \o more
    /\ got' = got \o [i \in DOMAIN Finals(r.out) |-> <<Finals(r.out)[i][1], Num(Finals(r.out)[i][3])>>] \o (IF w[1] = "cdisconnect" THEN << <<"c1", Num(w[3])>> >> ELSE <<>>)
    (* the connections that the transaction manager has been told of, for each transaction, and that still are up *)
    /\ known' = {x \in known : x[2] \in r.s.up} \cup {<<G(Num(r.out[i][4])), c>> : i \in {j \in DOMAIN r.out : r.out[j][2] = "involved"}, c \in {x \in Links : \E j \in DOMAIN r.out : r.out[j][2] = "involved" /\ r.out[j][3] = Label(r.s, x)}}
    /\ n' = n + 1
Ask(w) == Do(w, << <<w[4], Num(w[3]), Num(w[2])>> >>) /\ id' = id + 1
Just(w) == Do(w, <<>>) /\ id' = id
On(k) == k \in Ops
Tasks(kind) == {s.tasks[i] : i \in {j \in DOMAIN s.tasks : s.tasks[j].kind = kind}}
Next == /\ n < MaxSteps /\ s.run # "exited"
        /\ \/ \E c \in s.pend \cap Links : s.run = "running" /\ Just(<<"accept", S(c), "4">>)
           \/ \E c \in s.up :
              \/ \E t \in Trids, nr \in {"0", "1"} : On("call") /\ (IF nr = "0" THEN Ask(<<"call", S(c), S(id), "c1", "s1", S(t), "0">>) ELSE Do(<<"call", S(c), S(id), "c1", "s1", S(t), "1">>, <<>>) /\ id' = id + 1)
              \/ \E t \in Trids : On("connect") /\ Ask(<<"connect", S(c), S(id), "c1", "s1", S(t), "send">>)
              \/ \E t \in Trids : On("enqueue") /\ Ask(<<"enqueue", S(c), S(id), "c2", "q1", S(t)>>)
              \/ \E t \in Trids \ {0} : On("prepare") /\ <<G(t), c>> \in s.assoc /\ Do(<<"prepare", S(c), S(id), S(t)>>, <<>>) /\ id' = id + 1
              \/ On("rdisconnect") /\ Just(<<"rdisconnect", S(c)>>)
              \/ On("lost") /\ Just(<<"lost", S(c)>>)
           \/ \E t \in Tasks("call"), code \in {"OK", "TPENOENT"} : Just(<<"reply", S(t.c), S(t.id), code>>)
           \/ \E t \in Tasks("enqueue") : Just(<<"enqueued", S(t.c), S(t.id), "1">>)
           \/ \E t \in Tasks("connect") : \/ ~t.open /\ \E code \in {"OK", "TPENOENT"} : Just(<<"connected", S(t.c), S(t.id), code>>)
                                          \/ t.open /\ Just(<<"rsend", S(t.c), S(t.id), "terminated">>)
                                          \/ t.open /\ Just(<<"cdisconnect", S(t.c), S(t.id)>>)
           \/ \E d \in s.dests : Just(<<"prepared", S(d.c), S(d.id), "1", "ok">>)
           \/ \E t \in {G(x) : x \in Trids \ {0}} : On("prepare") /\ (\A d \in s.dests : FALSE) /\ (\E a \in s.assoc : a[1] = t) /\ Just(<<"disassociate", S(t)>>)
           \/ On("remove") /\ \E c \in s.cfg \cap Links : s.run = "running" /\ Just(<<"remove", S(c)>>)
           \/ On("shutdown") /\ s.run = "running" /\ Just(<<"shutdown">>)
Spec == Init /\ [][Next]_vars

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Inv == TypeInv(s)
(* a request is answered once, and nobody gets what they have not asked for; what is not answered is outstanding on a connection that is up *)
Once == \A i \in DOMAIN asked : LET a == <<asked[i][1], asked[i][2]>> IN Count(got, a) <= 1 /\ (Count(got, a) = 0 <=> Has(s, asked[i][2]))
Wanted == \A i \in DOMAIN got : \E j \in DOMAIN asked : asked[j][1] = got[i][1] /\ asked[j][2] = got[i][2]
(* connections that are asked to go stay only as long as somebody needs them, and the process as long as something is outstanding *)
Leaves == Settled(s)
Gone == s.run = "exited" => \A i \in DOMAIN asked : Count(got, <<asked[i][1], asked[i][2]>>) = 1
(* what the transaction manager has to ask when the transaction ends *)
Enlisted == \A i \in DOMAIN s.tasks : s.tasks[i].trid # 0 /\ (<<G(s.tasks[i].trid), s.tasks[i].c>> \in s.assoc) => <<G(s.tasks[i].trid), s.tasks[i].c>> \in known
View == << s, n, id, asked, got, known>>
=============================================================================
