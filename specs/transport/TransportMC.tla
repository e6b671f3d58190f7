---------------------------- MODULE TransportMC ----------------------------
(* A small world, explored in full: a coordinator, two devices.              *)
EXTENDS Transport

CONSTANTS Devices, MaxMessages, MaxSteps

VARIABLES s, n, id, sent, got, told
vars == << s, n, id, sent, got, told>>
View == vars

Init == s = FoldLeft(LAMBDA t, r : Open(t, r), Init0, SetToSeq(Devices)) /\ n = 0 /\ id = 1 /\ sent = <<>> /\ got = <<>> /\ told = <<>>

Sizes == {20, 70000}
Cbs == {<<"-">>, <<"n">>} \cup {<<"x", r, id + 1, 1, 20>> : r \in Devices}
Thens(w) == {m \in {w[7]} : m = "x"}

Commands ==
  (IF id <= MaxMessages THEN {<<"send", 1, r, id, 1, z>> \o c : r \in Devices, z \in Sizes, c \in Cbs} ELSE {})
  \cup {<<"pump", 1>>} \cup {<<"fail", 1, r>> : r \in Towards(s, 1)}
  \cup {<<"close", r>> : r \in s.up} \cup {<<"recv", r>> : r \in s.up}
  \cup UNION {{<<"rcorr", r, i>>, <<"discard", r, i>>} : r \in s.up, i \in 1..(id - 1)}

(* rows that might come *)
Rows(w) ==
  CASE w[1] = "send" -> {Callbacks(Push(s, 1, w[3], Message(w[4], w[5], w[6], w[7], Then(SubSeq(w, 7, Len(w))), FALSE)), 1, {w[3]}, {})}
    [] w[1] = "pump" -> {Callbacks(s, 1, Towards(s, 1), {})}
    [] w[1] = "fail" -> {Callbacks(s, 1, {w[3]}, {w[3]})}
    [] w[1] = "recv" -> {<< <<"none", w[2]>> >>} \cup {<< Got(w[2], a[2])>> : a \in Candidates(s, w[2], LAMBDA m : TRUE)}
    [] w[1] = "rcorr" -> {<< <<"none", w[2]>> >>} \cup {<< Got(w[2], a[2])>> : a \in Candidates(s, w[2], LAMBDA m : m.id = w[3])}
    [] OTHER -> {<<>>}

Nested(w, rows) == IF w[1] = "send" /\ w[7] = "x" THEN {} ELSE {}
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E w \in Commands : \E rows \in Rows(w) : \E left \in 0..(Pending(s, 1) + 2) :
           \E t \in After(s, w, rows, <<left>>) :
              /\ s' = t
              /\ id' = IF w[1] = "send" THEN id + 2 ELSE id
              /\ sent' = IF w[1] = "send" THEN Append(sent, <<w[4], w[3], w[7]>>) ELSE sent
              /\ got' = got \o [i \in DOMAIN SelectSeq(rows, LAMBDA r : r[1] = "got") |-> SelectSeq(rows, LAMBDA r : r[1] = "got")[i][3]]
              /\ told' = told \o [i \in DOMAIN SelectSeq(rows, LAMBDA r : r[1] = "failed") |-> SelectSeq(rows, LAMBDA r : r[1] = "failed")[i][4]]
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s)
Unique(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
(* a message is given once, or reported as failed once, never both *)
Once == Unique(got) /\ Unique(told) /\ Range(got) \cap Range(told) = {}
(* in order, device by device, if nothing is picked out of order - here: what is on its way is in order *)
Whole == \A k \in DOMAIN s.q : \A i, j \in DOMAIN s.q[k] : i < j => s.q[k][i].id < s.q[k][j].id \/ s.q[k][i].id % 2 = 0 \/ s.q[k][j].id % 2 = 0
(* what waits for somebody that is gone is told at the next attempt; what has been told, or given, is not on its way *)
Accounted == \A k \in DOMAIN s.q : \A m \in Range(s.q[k]) : m.id \notin Range(got) \cup Range(told)
=============================================================================
