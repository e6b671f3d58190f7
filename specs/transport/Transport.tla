----------------------------- MODULE Transport -----------------------------
(* The transport between processes: messages of any size go in parts from    *)
(* send coordinators (that never block) to inbound devices (that give whole  *)
(* messages, selectively). What is on its way:                                *)
(*   q[k]  k = <<sender, device>>: messages that are sent but not received,   *)
(*         in order. sender 1, 2: the coordinators, 0: the device itself,     *)
(*         > 100: a message that is sent directly, on its own                 *)
(*   p[k]  how many of these, the last ones, that are still at the sender     *)
(* disc: <<device, message>> that are not wanted, dry: devices with nothing   *)
(* in them at all (they take a small message at once)                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Small == 8000

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init0 == [q |-> <<>>, p |-> <<>>, up |-> {}, gone |-> {}, disc |-> {}, dry |-> {}]

Q(s, x, r) == Get(s.q, <<x, r>>, <<>>)
P(s, x, r) == Get(s.p, <<x, r>>, 0)
Keys(s, r) == {k \in DOMAIN s.q : k[2] = r}
Arrived(s, k) == SubSeq(s.q[k], 1, Len(s.q[k]) - Get(s.p, k, 0))
Waiting(s, x, r) == LET q == Q(s, x, r) IN SubSeq(q, Len(q) - P(s, x, r) + 1, Len(q))
Dropped(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Towards(s, x) == {k[2] : k \in {k \in DOMAIN s.p : k[1] = x /\ s.p[k] > 0}}
Pending(s, x) == FoldLeft(LAMBDA a, r : a + P(s, x, r), 0, SetToSeq(Towards(s, x)))

(* what has arrived and is not wanted is not there *)
Wanted(s) ==
  LET hits == UNION {{<<k[2], m.id>> : m \in Range(Arrived(s, k))} : k \in DOMAIN s.q} \cap s.disc
  IN IF hits = {} THEN s
     ELSE [s EXCEPT !.q = [k \in DOMAIN s.q |-> LET a == Arrived(s, k) IN SelectSeq(a, LAMBDA m : <<k[2], m.id>> \notin hits) \o SubSeq(s.q[k], Len(a) + 1, Len(s.q[k]))],
                    !.disc = @ \ hits]

Message(id, type, size, cb, then, nested) == [id |-> id, type |-> type, size |-> size, cb |-> cb, then |-> then, nested |-> nested]
Place(s, x, r, m, n) == [s EXCEPT !.q = Put(@, <<x, r>>, Append(Q(s, x, r), m)), !.p = Put(@, <<x, r>>, P(s, x, r) + n)]
Push(s, x, r, m) == Place(s, x, r, m, 1)

(* F: devices that are given up *)
Bad(s, r, F) == r \in s.gone \/ r \in F
(* the nested ones for a device that is given up is a new matter *)
Must(s, r, m) == r \in s.gone \/ ~m.nested

(* the callback of message id is invoked: {} or {<<state, device that is tried, 0>>} *)
Failed(s, x, r, id, F) ==
  LET w == Waiting(s, x, r)
      n == Len(Q(s, x, r)) - Len(w)
      is == {i \in DOMAIN w : w[i].id = id /\ w[i].cb # "-" /\ Must(s, r, w[i])}
      i == CHOOSE j \in is : TRUE
  IN IF ~Bad(s, r, F) \/ is = {} THEN {}
     ELSE IF ~w[i].nested /\ \E j \in 1..(i - 1) : w[j].cb # "-" /\ ~w[j].nested THEN {}
     ELSE LET t == [s EXCEPT !.q = Put(@, <<x, r>>, Dropped(Q(s, x, r), n + i)), !.p = Put(@, <<x, r>>, Len(w) - 1)]
              m == w[i]
          IN IF m.cb = "x" THEN {<<Push(t, x, m.then.r, Message(m.then.id, m.then.type, m.then.size, "n", 0, TRUE)), m.then.r>>} ELSE {<<t, 0>>}

Row(x, r, m) == <<"failed", x, r, m.id, m.type, m.size, "ok">>
(* the rows are callbacks of sender x; T: devices that are tried *)
RECURSIVE Explained(_, _, _, _, _)
Explained(s, x, rows, T, F) ==
  IF rows = <<>> THEN {<<s, T>>}
  ELSE LET row == Head(rows)
           rs == {r \in Towards(s, x) : \E m \in Range(Waiting(s, x, r)) : row = Row(x, r, m)}
       IN UNION { Explained(f[1], x, Tail(rows), T \cup ({f[2]} \ {0}), F) : f \in UNION {Failed(s, x, r, row[4], F) : r \in rs} }

(* the callbacks, in one of the orders they might come in *)
RECURSIVE Callbacks(_, _, _, _)
Callbacks(s, x, T, F) ==
  LET due == {r \in T : Bad(s, r, F) /\ \E m \in Range(Waiting(s, x, r)) : m.cb # "-" /\ Must(s, r, m)}
  IN IF due = {} THEN <<>>
     ELSE LET r == CHOOSE r \in due : TRUE
              m == SelectSeq(Waiting(s, x, r), LAMBDA m : m.cb # "-" /\ Must(s, r, m))[1]
              f == CHOOSE f \in Failed(s, x, r, m.id, F) : TRUE
          IN <<Row(x, r, m)>> \o Callbacks(f[1], x, T \cup ({f[2]} \ {0}), F)

(* how many that are left for each of the devices, total in all *)
RECURSIVE Splits(_, _, _, _)
Splits(s, x, rs, total) ==
  IF rs = <<>> THEN (IF total = 0 THEN {s} ELSE {})
  ELSE LET r == Head(rs)
           top == P(s, x, r)
           (* a small one goes at once to a device that has nothing *)
           most == IF r \in s.dry /\ top = 1 /\ Len(Q(s, x, r)) = 1 /\ Waiting(s, x, r)[1].size <= Small THEN 0 ELSE top
       IN UNION {Splits([s EXCEPT !.p = Put(@, <<x, r>>, n)], x, Tail(rs), total - n) : n \in {n \in 0..most : n <= total}}

(* what was sent by a callback is as any other from now on *)
Plain(s, x) == [s EXCEPT !.q = [k \in DOMAIN s.q |-> IF k[1] = x THEN [i \in DOMAIN s.q[k] |-> [s.q[k][i] EXCEPT !.nested = FALSE]] ELSE s.q[k]]]
(* when everything in T has been tried nothing waits for those that are gone, and the others have taken what they can *)
Tried(s, x, T, F, total) ==
  LET bad == {r \in T : Bad(s, r, F)}
      keep(t, r) == SelectSeq(Waiting(t, x, r), LAMBDA m : ~Must(t, r, m))
      drop(t, r) == [t EXCEPT !.q = Put(@, <<x, r>>, SubSeq(Q(t, x, r), 1, Len(Q(t, x, r)) - P(t, x, r)) \o keep(t, r)), !.p = Put(@, <<x, r>>, Len(keep(t, r)))]
      silent == \A r \in bad : \A m \in Range(Waiting(s, x, r)) : m.cb = "-" \/ ~Must(s, r, m)
      t == FoldLeft(drop, s, SetToSeq(bad))
      good == T \cap s.up
      rest == FoldLeft(LAMBDA a, r : a + P(t, x, r), 0, SetToSeq(Towards(t, x) \ good))
  IN IF ~silent \/ total < rest THEN {} ELSE {Wanted(Plain([u EXCEPT !.dry = @ \ T], x)) : u \in Splits(t, x, SetToSeq(good), total - rest)}

Attempt(s, x, rows, T, F, total) == UNION {Tried(e[1], x, e[2], F, total) : e \in Explained(s, x, rows, T, F)}

(* --- reception *)
First(q, f(_)) == SelectSeq(q, f)
Candidates(s, r, ok(_)) == UNION {LET c == SelectSeq(Arrived(s, k), ok) IN IF c = <<>> THEN {} ELSE {<<k, c[1]>>} : k \in Keys(s, r)}
Got(r, m) == <<"got", r, m.id, m.type, m.size, "ok">>
Taken(s, k, m) == [s EXCEPT !.q = Put(@, k, SelectSeq(s.q[k], LAMBDA x : x # m))]
(* nothing is the answer only if there is nothing *)
Receive(s, r, ok(_), row) ==
  LET c == Candidates(s, r, ok)
  IN IF row = <<"none", r>> THEN (IF c = {} THEN {[s EXCEPT !.dry = IF \A k \in Keys(s, r) : s.q[k] = <<>> THEN @ \cup {r} ELSE @]} ELSE {})
     ELSE {Taken(s, a[1], a[2]) : a \in {a \in c : Got(r, a[2]) = row}}
(* what has been read already, if any *)
Cached(s, r, ok(_), row) == IF row = <<"none", r>> THEN {s} ELSE Receive(s, r, ok, row)

Known(s, r, id) == {k \in Keys(s, r) : \E m \in Range(s.q[k]) : m.id = id}
Discard(s, r, id) == Wanted([s EXCEPT !.disc = @ \cup {<<r, id>>}])

Open(s, r) == [s EXCEPT !.up = @ \cup {r}, !.dry = @ \cup {r}]
(* what had come is lost, what waits does so until it is tried *)
Close(s, r) == [s EXCEPT !.up = @ \ {r}, !.gone = @ \cup {r}, !.dry = @ \ {r}, !.disc = {d \in @ : d[1] # r},
                         !.q = [k \in DOMAIN s.q |-> IF k[2] = r THEN Waiting(s, k[1], r) ELSE s.q[k]]]

Then(w) == IF w[1] = "x" THEN [r |-> w[2], id |-> w[3], type |-> w[4], size |-> w[5]] ELSE 0

(* the states after w, when it gave the rows, and pend is left at the senders *)
After(s, w, rows, pend) ==
  LET one(x) == pend[x] IN
  CASE w[1] = "open" -> IF rows = <<>> THEN {Open(s, w[2])} ELSE {}
    [] w[1] \in {"close", "crash"} -> IF rows = <<>> THEN {Close(s, w[2])} ELSE {}
    [] w[1] = "send" -> Attempt(Push(s, w[2], w[3], Message(w[4], w[5], w[6], w[7], Then(SubSeq(w, 7, Len(w))), FALSE)), w[2], rows, {w[3]}, {}, one(w[2]))
    [] w[1] \in {"pump", "batch"} -> Attempt(s, w[2], rows, Towards(s, w[2]), {}, one(w[2]))
    [] w[1] = "fail" -> Attempt(s, w[2], rows, {w[3]}, {w[3]}, one(w[2]))
    [] w[1] = "nsend" -> CASE rows = << <<"sent", "gone">> >> -> IF w[2] \in s.gone THEN {s} ELSE {}
                           [] rows = << <<"sent", "no">> >> -> IF w[2] \in s.up /\ ~(w[2] \in s.dry /\ w[5] <= Small) THEN {[s EXCEPT !.dry = @ \ {w[2]}]} ELSE {}
                           [] rows = << <<"sent", "yes">> >> -> IF w[2] \in s.up THEN {Wanted([Place(s, 100 + w[3], w[2], Message(w[3], w[4], w[5], "-", 0, FALSE), 0) EXCEPT !.dry = @ \ {w[2]}])} ELSE {}
                           [] OTHER -> {}
    [] w[1] = "recv" -> IF Len(rows) = 1 THEN Receive(s, w[2], LAMBDA m : TRUE, rows[1]) ELSE {}
    [] w[1] = "rtype" -> IF Len(rows) = 1 THEN Receive(s, w[2], LAMBDA m : m.type = w[3], rows[1]) ELSE {}
    [] w[1] = "rtypes" -> IF Len(rows) = 1 THEN Receive(s, w[2], LAMBDA m : m.type \in {w[3], w[4]}, rows[1]) ELSE {}
    [] w[1] = "rcorr" -> IF Len(rows) = 1 THEN Receive(s, w[2], LAMBDA m : m.id = w[3], rows[1]) ELSE {}
    [] w[1] = "rboth" -> IF Len(rows) = 1 THEN Receive(s, w[2], LAMBDA m : m.id = w[3] /\ m.type = w[4], rows[1]) ELSE {}
    [] w[1] = "cached" -> IF Len(rows) = 1 THEN Cached(s, w[2], LAMBDA m : TRUE, rows[1]) ELSE {}
    [] w[1] = "ctypes" -> IF Len(rows) = 1 THEN Cached(s, w[2], LAMBDA m : m.type \in {w[3], w[4]}, rows[1]) ELSE {}
    [] w[1] = "flush" -> IF rows = <<>> THEN {s} ELSE {}
    [] w[1] = "discard" -> IF rows = <<>> THEN {Discard(s, w[2], w[3])} ELSE {}
    [] w[1] = "push" -> IF rows = <<>> THEN {[Place(s, 0, w[2], Message(w[3], w[4], w[5], "-", 0, FALSE), 0) EXCEPT !.dry = @ \ {w[2]}]} ELSE {}
    (* everything has been pumped, and received *)
    [] w[1] = "settle" -> IF rows = <<>> /\ \A k \in DOMAIN s.q : s.q[k] = <<>> THEN {s} ELSE {}
    [] OTHER -> {}

(* the senders that w does not use have as many left as before *)
Left(s, w, pend) == \A x \in DOMAIN pend : (w[1] \in {"send", "pump", "batch", "fail"} /\ w[2] = x) \/ pend[x] = Pending(s, x)

TypeInv(s) == /\ s.up \cap s.gone = {}
              /\ \A k \in DOMAIN s.p : s.p[k] <= Len(Get(s.q, k, <<>>))
              /\ \A d \in s.disc : d[1] \in s.up
=============================================================================
