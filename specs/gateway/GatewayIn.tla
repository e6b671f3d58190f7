----------------------------- MODULE GatewayIn -----------------------------
(* The inbound side of the gateway: what other domains ask of this one is    *)
(* looked up, put into the transaction as it is known in this domain, passed *)
(* on, and answered on the connection it came from - once. What has been     *)
(* reserved for a connection that is gone is given back, and a connection    *)
(* that is to go stays as long as it is needed.                              *)
(*                                                                           *)
(* A step is a stimulus (words, as the driver reads them) and what everyone  *)
(* else sees because of it (rows; the first word is who sees it).            *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
RECURSIVE Num(_)
Num(x) == IF Len(x) = 1 THEN Digit[x] ELSE 10 * Num(SubSeq(x, 1, Len(x) - 1)) + Digit[SubSeq(x, Len(x), Len(x))]
S(n) == ToString(n)
G(t) == t % 100
Inner(t) == 900 + G(t)
Listener(c) == IF c % 2 = 1 THEN 1 ELSE 2
Forward(c) == Listener(c) = 2

(* up: connections, est: in the order they came. going: those that have agreed to go. cache: transaction x connection.    *)
(* known: transactions that have a branch here. tasks: what is outstanding, in order                                      *)
Init0 == [ up |-> {}, est |-> <<>>, inc |-> [c \in 1..4 |-> 0], v |-> [c \in 1..4 |-> 0], going |-> {}, asked |-> {}, cache |-> {}, tasks |-> <<>>,
           listens |-> {1, 2}, run |-> "running" ]

R(s, out) == [s |-> s, out |-> out]
Without(q, P(_)) == SelectSeq(q, LAMBDA x : ~P(x))
Label(s, c) == S(10 * c + s.inc[c])
Tcp(s, c) == "tcp" \o Label(s, c)
Known(s) == {x[1] : x \in s.cache}

Has(s, id) == \E i \in DOMAIN s.tasks : s.tasks[i].id = id
The(s, id) == LET i == CHOOSE i \in DOMAIN s.tasks : s.tasks[i].id = id /\ \A j \in 1..(i - 1) : s.tasks[j].id # id IN s.tasks[i]
HasKind(s, id, kinds) == Has(s, id) /\ The(s, id).kind \in kinds
Drop(s, id) == [s EXCEPT !.tasks = Without(@, LAMBDA t : t.id = id)]
Put(s, t) == [s EXCEPT !.tasks = [i \in DOMAIN @ |-> IF @[i].id = t.id THEN t ELSE @[i]]]
Task(id, c, kind, svc, t, data, wait) ==
  [id |-> id, c |-> c, kind |-> kind, svc |-> svc, trid |-> t, more |-> data, wait |-> wait, at |-> "", name |-> ""]
Passed(t) == t.at # "" /\ ~t.wait
Idle(s, c) == (\A i \in DOMAIN s.tasks : s.tasks[i].c # c) /\ (\A x \in s.cache : x[2] # c)
Done(s) == s.run = "shutdown" /\ s.up = {}

Old(s, c) == s.v[c] < 3
Reply(s, t, code, data) == <<Tcp(s, t.c), IF Old(s, t.c) THEN "reply2" ELSE "reply", S(t.id), code, data>>
(* the answer when it cannot be passed on *)
Refuse(s, t, code) ==
  CASE t.kind = "call" -> IF t.more = "1" THEN <<>> ELSE << Reply(s, t, code, "-") >>
    [] t.kind = "connect" -> << <<Tcp(s, t.c), "connected", S(t.id), code>> >>
    [] t.kind = "enqueue" -> << <<Tcp(s, t.c), IF Old(s, t.c) THEN "enqueued2" ELSE "enqueued", S(t.id), "0">> >>
    [] OTHER -> << <<Tcp(s, t.c), IF Old(s, t.c) THEN "dequeued2" ELSE "dequeued", S(t.id), "0">> >>
Refused(s, t, code) == R(Drop(s, t.id), Refuse(s, t, code))

(* passes it on, to the one that was looked up *)
Inside(t) == IF t.trid = 0 THEN "0" ELSE S(Inner(t.trid))
Pass(s, t) ==
  IF t.kind \in {"call", "connect"} THEN
    IF t.at = "gone" THEN Refused(s, t, "TPESVCERR")
    ELSE LET row == <<t.at, t.kind, Label(s, t.c), S(t.id), t.name, IF t.name = t.svc THEN "-" ELSE t.svc, Inside(t), "d" \o S(t.id), t.more>>
         IN R(IF t.kind = "call" /\ t.more = "1" THEN Drop(s, t.id) ELSE Put(s, t), << row >>)
  ELSE IF t.at \in {"-", "gone"} THEN Refused(s, t, "")
  (* nobody waits for a request that may wait for ever *)
  ELSE R(IF t.more = "1" THEN Drop(s, t.id) ELSE Put(s, t), << <<t.at, t.kind, Label(s, t.c), S(t.id), t.svc, Inside(t), IF t.kind = "enqueue" THEN "d" \o S(t.id) ELSE t.more>> >>)

Discard(t) == <<"sm", "discard", S(t.id), t.svc, "0">>
(* what is to be done when the connection is no more *)
Abandon(t) ==
  CASE t.kind \in {"call", "connect"} /\ ~Passed(t) -> << Discard(t) >>
    [] t.kind = "connect" /\ Passed(t) -> << <<t.at, "disconnect", S(t.id)>> >>
    [] OTHER -> <<>>
(* transactions that nobody else is associated with *)
Only(s, c) == {x[1] : x \in {y \in s.cache : y[2] = c}} \ {x[1] : x \in {y \in s.cache : y[2] # c}}
RECURSIVE Csv(_)
Csv(X) == LET m == CHOOSE x \in X : \A y \in X : x <= y IN IF X = {m} THEN S(m) ELSE S(m) \o "," \o Csv(X \ {m})
Lose(s, c) ==
  LET mine == SelectSeq(s.tasks, LAMBDA t : t.c = c)
  IN R([s EXCEPT !.up = @ \ {c}, !.est = Without(@, LAMBDA x : x = c), !.going = @ \ {c}, !.asked = @ \ {c}, !.cache = {x \in @ : x[2] # c}, !.tasks = Without(@, LAMBDA t : t.c = c)],
       << <<"dm", "destroyed", Label(s, c)>> >> \o (IF Only(s, c) = {} THEN <<>> ELSE << <<"tm", "active", Csv(Only(s, c))>> >>) \o Flat([i \in DOMAIN mine |-> Abandon(mine[i])]))
Leave(s, c) == LET q == Lose(s, c) IN R(q.s, q.out \o << <<Tcp(s, c), "closed">> >>)
(* asks the other domain if it is fine to go. Those that do not understand just go *)
Ask(s, c) == IF s.v[c] >= 1 THEN R([s EXCEPT !.asked = @ \cup {c}], << <<Tcp(s, c), "disconnect">> >>) ELSE Leave(s, c)
Each(s, cs, F(_, _)) == FoldLeft(LAMBDA r, c : LET q == F(r.s, c) IN R(q.s, r.out \o q.out), R(s, <<>>), cs)

(* requests of other domains *)
Associate(s, c, id, t) ==
  IF t = 0 THEN R(s, <<>>)
  ELSE IF G(t) \in Known(s) THEN R([s EXCEPT !.cache = @ \cup {<<G(t), c>>}], <<>>)
  ELSE R(s, << <<"tm", "branch", Label(s, c), S(id), S(G(t))>> >>)
Requester(c) == IF Forward(c) THEN "external_discovery" ELSE "external"
External(s, w) ==
  LET c == Num(w[2]) k == w[1] IN
  CASE k \in {"call", "connect"} ->
         LET id == Num(w[3]) t == Num(w[5]) a == Associate(s, c, id, t)
         IN R([a.s EXCEPT !.tasks = Append(@, Task(id, c, k, w[4], t, w[6], t # 0 /\ G(t) \notin Known(s)))],
              << <<"sm", "lookup", Label(s, c), w[3], w[4], Requester(c), IF k = "call" /\ w[6] = "1" THEN "no_reply" ELSE "regular", S(G(t))>> >> \o a.out)
    [] k \in {"enqueue", "dequeue"} ->
         LET id == Num(w[3]) t == Num(w[5]) a == Associate(s, c, id, t)
         IN R([a.s EXCEPT !.tasks = Append(@, Task(id, c, k, w[4], t, IF k = "dequeue" /\ w[4] = "q2" THEN "1" ELSE "0", t # 0 /\ G(t) \notin Known(s)))],
              << <<"qm", "lookup", Label(s, c), w[3], w[4], Requester(c), "direct", S(G(t))>> >> \o a.out)
    [] k = "csend" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, {"connect"}) /\ Passed(The(s, id)) THEN R(s, << <<The(s, id).at, "send", w[3], w[4], "m" \o w[3]>> >>) ELSE R(s, <<>>)
    [] k = "cdisconnect" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, {"connect"}) THEN R(Drop(s, id), Abandon(The(s, id))) ELSE R(s, <<>>)
    [] k \in {"prepare", "commit", "rollback"} ->
         LET id == Num(w[3]) t == Num(w[4]) IN
         IF G(t) \in Known(s) THEN R([s EXCEPT !.tasks = Append(@, Task(id, c, k, "", t, "", FALSE))], << <<"tm", k, Label(s, c), w[3], S(Inner(t))>> >>)
         ELSE R(s, << <<Tcp(s, c), CASE k = "prepare" -> "prepared" [] k = "commit" -> "committed" [] OTHER -> "rolledback", w[3], "XAER_PROTO", w[4]>> >>)
    [] k = "discover" -> R(s, << <<"disc", "discover", Label(s, c), w[3], w[4], w[5], IF Forward(c) THEN "forward" ELSE "local">> >>)
    [] k = "dreply" -> IF Idle(s, c) THEN Leave(s, c) ELSE R([s EXCEPT !.going = @ \cup {c}], <<>>)
    [] k \in {"lost", "reset"} -> Lose(s, c)

(* what is said to a connection, within the domain *)
Internal(s, w) ==
  LET c == Num(w[2]) k == w[1] id == IF Len(w) > 2 THEN Num(w[3]) ELSE 0 IN
  CASE k = "lookedup" ->
         IF ~HasKind(s, id, {"call", "connect"}) THEN R(s, <<>>)
         ELSE LET t == The(s, id) IN
              CASE w[4] = "absent" -> Refused(s, t, "TPENOENT")
                [] w[4] = "timeout" -> Refused(s, t, "TPETIME")
                [] OTHER -> LET t2 == [t EXCEPT !.at = w[6], !.name = w[5]] IN IF t.wait THEN R(Put(s, t2), <<>>) ELSE Pass(s, t2)
    [] k = "qlookedup" ->
         IF ~HasKind(s, id, {"enqueue", "dequeue"}) THEN R(s, <<>>)
         ELSE LET t2 == [The(s, id) EXCEPT !.at = w[5]] IN IF t2.wait THEN R(Put(s, t2), <<>>) ELSE Pass(s, t2)
    [] k = "branched" ->
         LET s2 == [s EXCEPT !.cache = @ \cup {<<Num(w[4]), c>>}] IN
         IF ~HasKind(s, id, {"call", "connect", "enqueue", "dequeue"}) THEN R(s2, <<>>)
         ELSE LET t == [The(s, id) EXCEPT !.wait = FALSE] IN IF t.at = "" THEN R(Put(s2, t), <<>>) ELSE Pass(s2, t)
    [] k = "reply" -> IF HasKind(s, id, {"call"}) THEN R(Drop(s, id), << Reply(s, The(s, id), w[4], "r" \o w[3]) >>) ELSE R(s, <<>>)
    [] k = "connected" -> R(IF w[4] = "OK" THEN s ELSE Drop(s, id), << <<Tcp(s, c), "connected", w[3], w[4]>> >>)
    [] k = "rsend" -> R(IF w[4] = "terminated" THEN Drop(s, id) ELSE s, << <<Tcp(s, c), "send", w[3], w[4], "r" \o w[3]>> >>)
    [] k = "enqueued" -> R(Drop(s, id), << <<Tcp(s, c), IF Old(s, c) THEN "enqueued2" ELSE "enqueued", w[3], w[4]>> >>)
    [] k = "dequeued" -> R(Drop(s, id), << <<Tcp(s, c), IF Old(s, c) THEN "dequeued2" ELSE "dequeued", w[3], IF w[4] = "1" THEN "r" \o w[3] ELSE "0">> >>)
    [] k \in {"prepared", "committed", "rolledback"} ->
         IF HasKind(s, id, {CASE k = "prepared" -> "prepare" [] k = "committed" -> "commit" [] OTHER -> "rollback"})
         THEN LET t == The(s, id) IN R(Drop(s, id), << <<Tcp(s, t.c), k, w[3], w[5], S(t.trid)>> >>) ELSE R(s, <<>>)
    [] k = "discovered" -> R(s, << <<Tcp(s, c), IF s.v[c] < 4 THEN "discovered3" ELSE "discovered", w[3], w[4], w[5]>> >>)
    [] k = "update" -> R(s, << <<Tcp(s, c), "update", "other">> >>)

Management(s, w) ==
  LET k == w[1] IN
  CASE k = "open" ->
         LET c == Num(w[2]) IN
         IF s.run # "running" \/ Listener(c) \notin s.listens THEN R(s, <<>>)
         ELSE LET s2 == [s EXCEPT !.up = @ \cup {c}, !.inc[c] = @ + 1, !.v[c] = Num(w[3]), !.est = Append(@, c)]
              IN R(s2, IF Forward(c) /\ s2.v[c] >= 2 THEN << <<"disc", "register", Label(s2, c), "topology">> >> ELSE <<>>)
    [] k = "disassociate" -> R([s EXCEPT !.cache = {x \in @ : x[1] # G(Num(w[2]))}], <<>>)
    [] k = "add" -> R([s EXCEPT !.listens = @ \cup {Num(w[2])}], << <<"gm", "updated">> >>)
    [] k = "remove" ->
         LET l == Num(w[2])
             q == IF l \in s.listens THEN Each(s, SelectSeq(s.est, LAMBDA c : Listener(c) = l), LAMBDA x, c : Ask(x, c)) ELSE R(s, <<>>)
         IN R([q.s EXCEPT !.listens = @ \ {l}], q.out \o << <<"gm", "updated">> >>)
    [] k = "shutdown" -> Each([s EXCEPT !.run = "shutdown", !.listens = {}], s.est, LAMBDA x, c : Ask(x, c))
    [] OTHER -> R(s, <<>>)

ExternalOps == {"call", "connect", "csend", "cdisconnect", "enqueue", "dequeue", "prepare", "commit", "rollback", "discover", "dreply", "lost", "reset"}
InternalOps == {"lookedup", "qlookedup", "branched", "reply", "connected", "rsend", "enqueued", "dequeued", "prepared", "committed", "rolledback", "discovered", "update"}
Apply(s, w) ==
  IF s.run = "exited" THEN R(s, <<>>)
  ELSE IF w[1] \in ExternalOps THEN IF Num(w[2]) \in s.up THEN External(s, w) ELSE R(s, <<>>)
  ELSE IF w[1] \in InternalOps THEN IF Num(w[2]) \in s.up THEN Internal(s, w) ELSE R(s, <<>>)
  ELSE Management(s, w)

(* connections that are to go, and are not needed any more, go. And so does the process *)
Leaving(s) == {c \in s.going : Idle(s, c)}
RestIn(s, order) == LET q == Each(s, order, LAMBDA x, c : Leave(x, c)) IN IF Done(q.s) THEN R([q.s EXCEPT !.run = "exited"], q.out) ELSE q
Rest(s) == RestIn(s, SelectSeq(s.est, LAMBDA c : c \in Leaving(s)))
Rests(s) == {RestIn(s, order) : order \in SetToSeqs(Leaving(s))}
Settled(s) == s.run = "exited" \/ (~Done(s) /\ Leaving(s) = {})

Orders(ws) == IF Len(ws) = 1 THEN {ws} ELSE {ws, <<ws[2], ws[1]>>}
RECURSIVE All(_, _)
All(s, ws) == IF ws = <<>> THEN R(s, <<>>) ELSE LET q == Apply(s, Head(ws)) r == All(q.s, Tail(ws)) IN R(r.s, q.out \o r.out)
Outcomes(s, ws) == UNION { LET q == All(s, o) IN {R(r.s, q.out \o r.out) : r \in Rests(q.s)} : o \in Orders(ws) }

-----------------------------------------------------------------------------
TypeInv(s) ==
  /\ \A i \in DOMAIN s.tasks : s.tasks[i].c \in s.up
  /\ \A x \in s.cache : x[2] \in s.up
  /\ s.going \subseteq s.up /\ s.asked \subseteq s.up
  /\ Range(s.est) = s.up
  /\ s.run = "exited" => s.tasks = <<>> /\ s.cache = {} /\ s.up = {}
=============================================================================
