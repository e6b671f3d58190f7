----------------------------- MODULE GatewayOut -----------------------------
(* The outbound side of the gateway: what other processes of this domain ask *)
(* of other domains goes over a connection, and what comes back goes to the  *)
(* one who asked - once, also when the connection is lost or taken down.     *)
(*                                                                           *)
(* A step is a stimulus (a sequence of words, as the driver reads them) and  *)
(* what is seen by everyone else because of it (rows; the first word is who  *)
(* sees it).                                                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
RECURSIVE Num(_)
Num(x) == IF Len(x) = 1 THEN Digit[x] ELSE 10 * Num(SubSeq(x, 1, Len(x) - 1)) + Digit[SubSeq(x, Len(x), Len(x))]
S(n) == ToString(n)

(* connections of the process: c -> up, incarnation, version, what is asked of it: "" "disconnect" "remove"                    *)
(* pend: connections that are being tried. est: the ones that are up, in the order they came to be                               *)
(* tasks: what is outstanding (in order). dests: who waits for something of a transaction, or of discovery. assoc: transaction x connection *)
Init0(n, order) ==
  [ up |-> {}, inc |-> [c \in 1..4 |-> 0], v |-> [c \in 1..4 |-> 0], disc |-> [c \in 1..4 |-> ""], pend |-> 1..n, est |-> <<>>,
    tasks |-> <<>>, dests |-> {}, assoc |-> {}, run |-> "running", order |-> order, cfg |-> 1..n, owed |-> <<>> ]

R(s, out) == [s |-> s, out |-> out]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.out \o q.out)
Label(s, c) == S(10 * c + s.inc[c])
Tcp(s, c) == "tcp" \o Label(s, c)
Without(q, P(_)) == SelectSeq(q, LAMBDA x : ~P(x))
G(t) == t % 100

Unadvertise(s, c) == << <<"sm", "reset", Label(s, c), "-", "-">>, <<"qm", "reset", Label(s, c), "-", "-">> >>
Metric(t, code) == <<"metric", t.svc, S(t.id), code, S(t.trid)>>

(* what the one who waits gets when there will be no answer *)
Failed(t) ==
  CASE t.kind = "call" -> << <<t.caller, "reply", S(t.id), "TPESVCERR", "-">> >>
    [] t.kind = "connect" -> IF t.open THEN << <<t.caller, "send", S(t.id), "terminated", "TPESVCERR", "-">> >> ELSE << <<t.caller, "connected", S(t.id), "TPESVCERR">> >>
    [] t.kind = "enqueue" -> << <<t.caller, "enqueued", S(t.id), "0">> >>
    [] OTHER -> << <<t.caller, "dequeued", S(t.id), "0">> >>
Idle(s, c) == /\ \A i \in DOMAIN s.tasks : s.tasks[i].c # c
              /\ \A d \in s.dests : d.c # c
              /\ \A a \in s.assoc : a[2] # c
Done(s) == s.run = "shutdown" /\ s.tasks = <<>> /\ s.dests = {} /\ s.assoc = {}

(* the connection is no more. Whoever depends on it is told *)
Lose(s, c) ==
  LET mine == SelectSeq(s.tasks, LAMBDA t : t.c = c)
      again == s.run = "running" /\ s.disc[c] # "remove"
  IN R([s EXCEPT !.up = @ \ {c}, !.est = Without(@, LAMBDA x : x = c), !.tasks = Without(@, LAMBDA t : t.c = c), !.dests = {d \in @ : d.c # c},
                 !.assoc = {a \in @ : a[2] # c}, !.disc[c] = "", !.pend = IF again THEN @ \cup {c} ELSE @,
                 !.owed = @ \o [i \in DOMAIN SelectSeq(mine, LAMBDA t : t.kind \in {"call", "connect"}) |-> Metric(SelectSeq(mine, LAMBDA t : t.kind \in {"call", "connect"})[i], "TPESVCERR")]],
       Unadvertise(s, c) \o << <<"dm", "destroyed", Label(s, c)>> >> \o Flat([i \in DOMAIN mine |-> Failed(mine[i])]))

Disconnect(s, c, how) ==
  R([s EXCEPT !.disc[c] = IF @ = "remove" THEN @ ELSE how], Unadvertise(s, c))

(* the transaction manager is to know that the connection takes part *)
Involve(s, c, t) ==
  IF t = 0 \/ <<G(t), c>> \in s.assoc THEN R(s, <<>>)
  ELSE R([s EXCEPT !.assoc = @ \cup {<<G(t), c>>}], << <<"tm", "involved", Label(s, c), S(t)>> >>)

AddTask(s, t) == [s EXCEPT !.tasks = Append(@, t)]
Task(id, c, kind, caller, svc, trid) == [id |-> id, c |-> c, kind |-> kind, caller |-> caller, svc |-> svc, trid |-> trid, open |-> FALSE]
Has(s, id) == \E i \in DOMAIN s.tasks : s.tasks[i].id = id
The(s, id) == LET i == CHOOSE i \in DOMAIN s.tasks : s.tasks[i].id = id /\ \A j \in 1..(i - 1) : s.tasks[j].id # id IN s.tasks[i]
Drop(s, id) == [s EXCEPT !.tasks = Without(@, LAMBDA t : t.id = id)]
HasKind(s, id, kind) == Has(s, id) /\ The(s, id).kind = kind
NoEntry(s, t, code) == IF code = "TPENOENT" THEN << <<"sm", "unadvertise", Label(s, t.c), t.svc>> >> ELSE <<>>
Prefers(v, old, new) == IF v >= 3 THEN new ELSE old

Csv(x) == x   \* lists are words as they are
Hops(w, n) == CASE w = "-" -> "-" [] w = "s1" -> "s1:" \o S(n) [] w = "s2" -> "s2:" \o S(n) [] OTHER -> "s1:" \o S(n) \o ",s2:" \o S(n)

(* requests within the domain: on the device of a connection that is up *)
Internal(s, w) ==
  LET c == Num(w[2]) k == w[1]
  IN
  CASE k = "call" ->
         LET id == Num(w[3]) t == Num(w[6]) IN
         IF Has(s, id) THEN R([s EXCEPT !.owed = Append(@, Metric([svc |-> w[5], id |-> id, trid |-> t], "TPESYSTEM"))], << <<w[4], "reply", w[3], "TPESYSTEM", "-">> >>)
         ELSE LET s2 == IF w[7] = "1" THEN s ELSE AddTask(s, Task(id, c, "call", w[4], w[5], t))
                  q == Involve(s2, c, t)
              IN R(q.s, q.out \o << <<Tcp(s, c), Prefers(s.v[c], "call2", "call"), w[3], w[5], w[6], "d" \o w[3], w[7]>> >>)
    [] k = "connect" ->
         LET q == Involve(AddTask(s, Task(Num(w[3]), c, "connect", w[4], w[5], Num(w[6]))), c, Num(w[6]))
         IN R(q.s, q.out \o << <<Tcp(s, c), Prefers(s.v[c], "connect2", "connect"), w[3], w[5], w[6], "d" \o w[3], w[7]>> >>)
    [] k = "csend" -> R(s, << <<Tcp(s, c), "send", w[3], w[4], "m" \o w[3]>> >>)
    [] k = "cdisconnect" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, "connect") THEN R([Drop(s, id) EXCEPT !.owed = Append(@, Metric(The(s, id), "OK"))], << <<Tcp(s, The(s, id).c), "disconnect", w[3]>> >>)
         ELSE R(s, <<>>)
    [] k \in {"enqueue", "dequeue"} ->
         LET q == Involve(AddTask(s, Task(Num(w[3]), c, k, w[4], w[5], Num(w[6]))), c, Num(w[6]))
         IN R(q.s, q.out \o << <<Tcp(s, c), k, w[3], w[5], w[6], IF k = "enqueue" THEN "d" \o w[3] ELSE "1">> >>)
    [] k \in {"prepare", "commit", "rollback"} ->
         R([s EXCEPT !.dests = @ \cup {[id |-> Num(w[3]), c |-> c, to |-> "tm"]}], << <<Tcp(s, c), k, w[3], w[4]>> >>)
    [] k = "discover" ->
         IF s.run # "running" \/ s.disc[c] # "" THEN R(s, << <<w[4], "discovered", w[3], "-", "-">> >>)
         ELSE R([s EXCEPT !.dests = @ \cup {[id |-> Num(w[3]), c |-> c, to |-> w[4]]}], << <<Tcp(s, c), "discover", w[3], w[5], w[6]>> >>)
    [] k = "explore" ->
         IF s.run # "running" \/ s.disc[c] # "" THEN R(s, <<>>) ELSE R(s, << <<Tcp(s, c), "explore", "?", w[3], w[4]>> >>)

(* what other domains say *)
External(s, w) ==
  LET c == Num(w[2]) k == w[1]
  IN
  CASE k = "reply" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, "call") THEN
            LET t == The(s, id) IN R([Drop(s, id) EXCEPT !.owed = Append(@, Metric(t, w[4]))], << <<t.caller, "reply", w[3], w[4], "r" \o w[3]>> >> \o NoEntry(s, t, w[4]))
         ELSE R(s, <<>>)
    [] k = "connected" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, "connect") THEN
            LET t == The(s, id)
                \* a conversation that is refused is over
                s2 == IF w[4] = "OK" THEN [s EXCEPT !.tasks = [i \in DOMAIN @ |-> IF @[i].id = id THEN [@[i] EXCEPT !.open = TRUE] ELSE @[i]]]
                      ELSE [Drop(s, id) EXCEPT !.owed = Append(@, Metric(t, w[4]))]
            IN R(s2, << <<t.caller, "connected", w[3], w[4]>> >> \o NoEntry(s, t, w[4]))
         ELSE R(s, <<>>)
    [] k = "rsend" ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, "connect") THEN
            R(IF w[4] = "terminated" THEN Drop(s, id) ELSE s, << <<The(s, id).caller, "send", w[3], w[4], IF w[4] = "terminated" THEN "OK" ELSE "nil", "r" \o w[3]>> >>)
         ELSE R(s, <<>>)
    [] k \in {"enqueued", "dequeued"} ->
         LET id == Num(w[3]) IN
         IF HasKind(s, id, IF k = "enqueued" THEN "enqueue" ELSE "dequeue") THEN
            R(Drop(s, id), << <<The(s, id).caller, k, w[3], IF k = "dequeued" /\ w[4] = "1" THEN "r" \o w[3] ELSE w[4]>> >>)
         ELSE R(s, <<>>)
    [] k \in {"prepared", "committed", "rolledback"} ->
         LET ds == {d \in s.dests : d.id = Num(w[3])} IN
         IF ds = {} THEN R(s, <<>>) ELSE LET d == CHOOSE d \in ds : TRUE IN R([s EXCEPT !.dests = @ \ {d}], << <<d.to, k, w[3], w[5], w[4]>> >>)
    [] k = "discovered" ->
         LET ds == {d \in s.dests : d.id = Num(w[3])}
             adv == (IF w[4] = "-" THEN <<>> ELSE << <<"sm", "advertise", Label(s, c), S(s.order), Hops(w[4], 3)>> >>)
                 \o (IF w[5] = "-" THEN <<>> ELSE << <<"qm", "advertise", Label(s, c), S(s.order), w[5]>> >>)
         IN IF ds = {} THEN R(s, adv)
            ELSE LET d == CHOOSE d \in ds : TRUE IN R([s EXCEPT !.dests = @ \ {d}], adv \o << <<d.to, "discovered", w[3], Hops(w[4], 3), w[5]>> >>)
    [] k = "update" -> IF w[3] = "1" THEN R(s, <<>>) ELSE R(s, << <<"disc", "implicit", Label(s, c), "other">> >>)
    [] k = "rdisconnect" -> LET q == Disconnect(s, c, "disconnect") IN R(q.s, q.out \o << <<Tcp(s, c), "disconnected">> >>)
    [] k \in {"lost", "reset"} -> Lose(s, c)

Each(s, cs, F(_, _)) == FoldLeft(LAMBDA r, c : LET q == F(r.s, c) IN R(q.s, r.out \o q.out), R(s, <<>>), cs)

Management(s, w) ==
  LET k == w[1] IN
  CASE k = "accept" ->
         LET c == Num(w[2]) IN
         IF w[3] \in {"refuse", "bad"} THEN R(s, <<>>)
         ELSE LET s2 == [s EXCEPT !.up = @ \cup {c}, !.inc[c] = @ + 1, !.v[c] = Num(w[3]), !.pend = @ \ {c}, !.est = Append(@, c)]
              IN R(s2, << <<"tm", "instance", Label(s2, c), "casual-gateway-outbound-group">>, <<"disc", "register", Label(s2, c), "discover">>,
                          <<"disc", "topology", Label(s2, c), IF c = 2 THEN "s2" ELSE "-", IF c = 2 THEN "q2" ELSE "-">> >>)
    [] k = "disassociate" -> R([s EXCEPT !.assoc = {a \in @ : a[1] # G(Num(w[2]))}], <<>>)
    [] k = "order" ->
         LET n == Num(w[2])
             q == IF n = s.order THEN R(s, <<>>)
                  ELSE Each([s EXCEPT !.order = n], s.est, LAMBDA x, c : R(x, << <<"sm", "instance", Label(x, c), S(n), "-">>, <<"qm", "instance", Label(x, c), S(n), "-">> >>))
         IN R(q.s, q.out \o << <<"gm", "updated">> >>)
    [] k = "add" -> LET c == Num(w[2]) IN R([s EXCEPT !.cfg = @ \cup {c}, !.pend = IF c \in s.up THEN @ ELSE @ \cup {c},
                                                   !.disc[c] = IF @ = "remove" THEN "disconnect" ELSE @], << <<"gm", "updated">> >>)
    [] k = "remove" ->
         LET c == Num(w[2]) q == IF c \in s.up THEN Disconnect(s, c, "remove") ELSE R(s, <<>>)
         IN R([q.s EXCEPT !.cfg = @ \ {c}, !.pend = @ \ {c}], q.out \o << <<"gm", "updated">> >>)
    [] k = "shutdown" -> Each([s EXCEPT !.run = "shutdown", !.pend = {}], s.est, LAMBDA x, c : Disconnect(x, c, "disconnect"))
    [] OTHER -> R(s, <<>>)

InternalOps == {"call", "connect", "csend", "cdisconnect", "enqueue", "dequeue", "prepare", "commit", "rollback", "discover", "explore"}
ExternalOps == {"reply", "connected", "rsend", "enqueued", "dequeued", "prepared", "committed", "rolledback", "discovered", "update", "rdisconnect", "lost", "reset"}

(* what is sent to a connection that is gone meanwhile goes nowhere *)
Apply(s, w) ==
  IF s.run = "exited" THEN R(s, <<>>)
  ELSE IF w[1] \in InternalOps THEN IF Num(w[2]) \in s.up THEN Internal(s, w) ELSE R(s, <<>>)
  ELSE IF w[1] \in ExternalOps THEN IF Num(w[2]) \in s.up THEN External(s, w) ELSE R(s, <<>>)
  ELSE Management(s, w)

(* what happens when there is nothing else to do: connections that are to go, and that nobody needs any more, go; and so does the process *)
Leaving(s) == {c \in s.up : s.disc[c] # "" /\ Idle(s, c)}
LoseIdle(s, c) == LET q == Lose(s, c) IN R(q.s, q.out \o << <<Tcp(s, c), "closed">> >>)
Quit(s) == [s EXCEPT !.run = "exited", !.owed = <<>>]
RestIn(s, order) ==
  LET q == Each(s, order, LoseIdle)
  IN IF Done(q.s) THEN R(Quit(q.s), q.out) ELSE q
Rest(s) == RestIn(s, SelectSeq(s.est, LAMBDA c : c \in Leaving(s)))
\* in which order they go is of no importance
Rests(s) == {RestIn(s, order) : order \in SetToSeqs(Leaving(s))}
Settled(s) == s.run = "exited" \/ (~Done(s) /\ Leaving(s) = {})

(* one step: the stimuli, in any order if there are two of them *)
Orders(ws) == IF Len(ws) = 1 THEN {ws} ELSE {ws, <<ws[2], ws[1]>>}
RECURSIVE All(_, _)
All(s, ws) == IF ws = <<>> THEN R(s, <<>>) ELSE LET q == Apply(s, Head(ws)) r == All(q.s, Tail(ws)) IN R(r.s, q.out \o r.out)
Outcomes(s, ws) == UNION { LET q == All(s, o) IN {R(r.s, q.out \o r.out) : r \in Rests(q.s)} : o \in Orders(ws) }

-----------------------------------------------------------------------------
TypeInv(s) ==
  /\ \A i \in DOMAIN s.tasks : s.tasks[i].c \in s.up
  /\ \A d \in s.dests : d.c \in s.up
  /\ \A a \in s.assoc : a[2] \in s.up
  /\ s.pend \cap s.up = {}
  /\ Range(s.est) = s.up
  /\ s.run = "exited" => s.tasks = <<>> /\ s.dests = {} /\ s.assoc = {}
=============================================================================
