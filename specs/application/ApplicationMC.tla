---------------------------- MODULE ApplicationMC ----------------------------
(* Application with a small world, and what is to hold in every state of it.   *)
EXTENDS Application

CONSTANTS Mode, Fix, All, Ops, Kinds, MaxSteps

VARIABLES s, g, n, h
vars == <<s, g, n, h>>
View == <<s, g, n>>      \* (h is only the way here)

(* g: what the rest of the world has seen
   as   what the resources think of their association: "-" none, otherwise <<id, active>>
   txs  the transactions begun by the process -> how many times its fate has been decided
   bad  the transactions that can not be committed
   ans, ack  the executions of services, how many answers and acks there are
   ok   FALSE if the process has done something that is never allowed *)
Init == /\ s = Init0(Mode, Fix, All) /\ n = 0 /\ h = <<>>
        /\ g = [as |-> [r \in Range(All) |-> <<>>], txs |-> <<>>, bad |-> {}, ans |-> <<>>, ack |-> <<>>, ok |-> TRUE]

Top == IF s.code = <<>> THEN "idle" ELSE Head(s.code).k
Free2 == (s.mode = "client" /\ Top = "idle") \/ Top = "app"
Fresh == ToString(Cardinality(DOMAIN g.txs) + 1)
Out2 == {m \in DOMAIN s.sent : m < 500 /\ ~(\E i \in DOMAIN s.inbox : s.inbox[i].n = m) /\ (\E i \in DOMAIN s.cd : s.cd[i] = m)}
Conv2 == {i \in DOMAIN s.cv : s.cv[i].n # 0 /\ s.cv[i].ini /\ ~(\E j \in DOMAIN s.inbox : s.inbox[j].n = s.cv[i].n)}
Nxt == 500 + Cardinality(DOMAIN g.ack)

OpWords ==
  UNION {CASE k \in {"begin", "commit", "rollback"} -> {<<k>>}
           [] k \in {"suspend", "resume"} -> {<<k, "1">>}
           [] k = "control" -> {<<k, x>> : x \in {"0", "1", "42"}}
           [] k = "call" -> {<<k, "svc", "-", "d">>}
           [] k = "acall" -> {<<k, "1", "svc", "-", "d">>}
           [] k = "getrply" -> {<<k, "1", "noblock">>}
           [] k = "cancel" -> {<<k, "1">>}
           [] k = "axreg" -> {<<k, "2">>}
           [] k = "connect" -> {<<k, "5", "svc", x, "d">> : x \in {"sendonly", "recvonly"}}
           [] k = "send" -> {<<k, x, y, "d">> : x \in {"5", "0"}, y \in {"-", "recvonly"}}
           [] k = "recv" -> {<<k, x, "noblock">> : x \in {"5", "0"}}
           [] k = "discon" -> {<<k, "5">>}
           [] k = "return" -> IF Top = "app" THEN {<<k, "success", "0", "d">>, <<k, "fail", "0", "d">>} ELSE {}
           [] k = "forward" -> IF Top = "app" /\ ~s.srv.conv THEN {<<k, "svc", "d">>} ELSE {} : k \in Ops}
Codes2 == {<<"ok", "ok">>, <<"service_error", "rollback">>, <<"ok", "timeout">>}
Words ==
  (IF Free2 THEN {<<"op", Fresh>> \o w : w \in OpWords} ELSE {})
  \cup (IF s.mode = "server" /\ Top = "idle" THEN {<<"serve", ToString(Nxt), k, t, "0", Fresh>> : k \in Kinds, t \in {"0", ToString(Nxt + 400)}} ELSE {})
  \cup (IF s.mode = "server" /\ Top = "idle" /\ "recv" \in Ops THEN {<<"converse", ToString(Nxt), k, "0", "send", Fresh>> : k \in Kinds} ELSE {})
  \cup (IF Top = "wlookup" THEN {<<"lookup", ToString(Head(s.code).n), "idle", "1">>, <<"lookup", ToString(Head(s.code).n), "absent">>} ELSE {})
  \cup (IF Top \in {"wcommit", "wcommit2", "wrollback"} \/ s.tmd THEN {<<"tm", c, "commit">> : c \in {"ok", "hazard"}} ELSE {})
  \cup (IF Top \in {"wjoin", "wreg"} THEN {<<"tm", "ok", "-", "-">>} ELSE {})
  \cup {<<"reply", ToString(m), c[1], "0", c[2]>> : m \in IF Top = "app" THEN {} ELSE Out2, c \in Codes2}
  \cup (IF Top = "wconn" THEN {<<"connected", ToString(Head(s.code).n), "ok">>, <<"connected", ToString(Head(s.code).n), "no_entry">>, <<"reply", ToString(Head(s.code).n), "service_error", "0", "ok">>} ELSE {})
  \cup {<<"send", ToString(s.cv[i].n), "terminated", c[1], "0", c[2], "d">> : i \in IF Top = "wconn" THEN {} ELSE Conv2, c \in Codes2}

(* what the resources see *)
Seen(a, x) ==
  LET r == N(x[1]) en == x[2] id == x[3] fl == x[4]
      now == a.as[r]
      mine == id \in DOMAIN now
      set(v) == [a EXCEPT !.as[r] = Put(@, id, v)]
      wrong == [a EXCEPT !.ok = FALSE]
  IN CASE en = "start" -> IF \E k \in DOMAIN now : now[k] THEN wrong ELSE set(TRUE)
       [] en = "end" -> IF ~mine THEN wrong ELSE IF fl = "suspend" THEN set(FALSE) ELSE [a EXCEPT !.as[r] = [k \in DOMAIN now \ {id} |-> now[k]]]
       [] OTHER -> IF mine THEN wrong ELSE a                    \* nothing is decided while somebody works
Decide(a, id) == IF id \in DOMAIN a.txs THEN [a EXCEPT !.txs[id] = @ + 1, !.ok = @ /\ a.txs[id] = 0] ELSE [a EXCEPT !.ok = FALSE]   \* only those who begin decide
SeenOut(a, m) ==
  CASE m[1] = "commit" -> IF m[2] \in a.bad THEN [Decide(a, m[2]) EXCEPT !.ok = FALSE] ELSE Decide(a, m[2])
    [] m[1] = "rollback" -> Decide(a, m[2])
    [] m[1] = "reply" \/ (m[1] = "send" /\ m[4] = "terminated") -> [a EXCEPT !.ans = Put(@, m[3], 1 + IF m[3] \in DOMAIN @ THEN @[m[3]] ELSE 0)]
    [] m[1] = "call" /\ N(m[3]) >= 500 -> [a EXCEPT !.ans = Put(@, m[3], 1 + IF m[3] \in DOMAIN @ THEN @[m[3]] ELSE 0)]
    [] m[1] = "ack" /\ N(m[2]) >= 500 -> [a EXCEPT !.ack = Put(@, m[2], 1 + IF m[2] \in DOMAIN @ THEN @[m[2]] ELSE 0)]
    [] OTHER -> a
(* a transaction nobody else knows of is decided with the resources *)
Alone(a, q, out) ==
  LET ids == {q[i][3] : i \in {j \in DOMAIN q : q[j][2] \in {"commit", "rollback"}}}
  IN FoldLeft(LAMBDA b, id : IF (\E i \in DOMAIN q : q[i][2] = "commit" /\ q[i][3] = id) /\ id \in b.bad THEN [Decide(b, id) EXCEPT !.ok = FALSE] ELSE Decide(b, id), a, SetToSeq(ids))
After(a, w, x) ==
  LET a1 == IF x.s.used /\ ~(ToString(x.s.fresh) \in DOMAIN a.txs) THEN [a EXCEPT !.txs = Put(@, ToString(x.s.fresh), 0)] ELSE a
      a0 == IF w[1] \in {"serve", "converse"} THEN [a1 EXCEPT !.ack = Put(@, w[2], 0)] ELSE a1
      a2 == [a0 EXCEPT !.bad = @ \cup {Name(x.s.tx[i].id) : i \in {j \in DOMAIN x.s.tx : x.s.tx[j].st # 0}}]
      reg == w[1] = "op" /\ w[3] = "axreg" /\ x.res # <<>> /\ x.res[2] \in {"0", "1", "2"} /\ InTx(x.s)
      regtm == w[1] = "tm" /\ Top = "wreg"                         \* a resource that registers works from there
      a3 == FoldLeft(Seen, IF reg \/ regtm THEN [a2 EXCEPT !.as[2] = Put(@, Name(x.s.tx[Cur(x.s)].id), TRUE)] ELSE a2, x.xa)
      a4 == FoldLeft(SeenOut, a3, x.out)
  IN Alone(a4, x.xa, x.out)

Next == /\ n < MaxSteps
        /\ \E w \in Words : \E x \in {Apply(s, w)} : s' = x.s /\ g' = After(g, w, x) /\ n' = n + 1 /\ h' = Append(h, w)
Spec == Init /\ [][Next]_vars

Idle == Top = "idle"
(* never: work by two at the same time, a decision by somebody that did not begin or twice, a commit of what has failed *)
Allowed == g.ok
(* when there is no transaction nobody works for one *)
Quiet == (Idle /\ s.tx = <<>>) => \A r \in DOMAIN g.as : g.as[r] = <<>>
(* the decided ones are gone, and those that are left are not decided *)
Left == \A i \in DOMAIN s.tx : s.tx[i].own /\ s.tx[i].id # 0 => g.txs[Name(s.tx[i].id)] = 0
(* a service leaves nothing *)
Clean == (s.mode = "server" /\ Idle) => s.tx = <<>> /\ \A r \in DOMAIN g.as : g.as[r] = <<>>
(* one answer, or a forward, and one ack for every execution *)
Answered == \A k \in DOMAIN g.ack : g.ack[k] <= 1 /\ (g.ack[k] = 1 => k \in DOMAIN g.ans /\ g.ans[k] = 1)
Acked == (s.mode = "server" /\ Idle) => \A k \in DOMAIN g.ack : g.ack[k] = 1
(* descriptors are for one thing each *)
Descriptors == /\ \A i, j \in DOMAIN s.cd : (s.cd[i] = s.cd[j] /\ s.cd[i] # 0) => i = j
               /\ \A i, j \in DOMAIN s.cv : (s.cv[i].n = s.cv[j].n /\ s.cv[i].n # 0) => i = j
(* what a transaction waits for is answered to it, or is still to come *)
Pending == \A i \in {j \in DOMAIN s.tx : s.tx[j].st = 0} : \A m \in s.tx[i].pend : (\E j \in DOMAIN s.cd : s.cd[j] = m) \/ (\E j \in DOMAIN s.cv : s.cv[j].n = m)
=============================================================================
