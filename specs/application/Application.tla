----------------------------- MODULE Application -----------------------------
\* What a process of an application is to do: the XATMI calls and conversations, the transaction
\* demarcation (tx) with its resources (xa), and the execution of services. The rest of the domain -
\* service-manager, transaction-manager, the instances that are called and the callers - is the world.
\* The process is sequential, hence every step - a call from the application (op) or a message from
\* the world - has exactly one outcome: what is sent, what the resources are told, and what the application gets.
\* A call that has to wait is kept as the instructions that remain (code).
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NUM == [x \in {ToString(i) : i \in 0..999} |-> CHOOSE i \in 0..999 : ToString(i) = x]
N(x) == NUM[x]
FLAGS == ("-" :> {}) @@ ("notran" :> {"notran"}) @@ ("noreply" :> {"noreply"}) @@ ("noblock" :> {"noblock"}) @@ ("notran,noreply" :> {"notran", "noreply"})
         @@ ("any" :> {"any"}) @@ ("any,noblock" :> {"any", "noblock"}) @@ ("recvonly" :> {"recvonly"}) @@ ("sendonly" :> {"sendonly"})
         @@ ("notran,recvonly" :> {"notran", "recvonly"}) @@ ("notran,sendonly" :> {"notran", "sendonly"}) @@ ("sendonly,recvonly" :> {"sendonly", "recvonly"})
         @@ ("nochange" :> {"nochange"}) @@ ("notran,noblock" :> {"notran", "noblock"})
RECURSIVE Csv(_)
Csv(x) == IF x = {} THEN "-" ELSE IF Cardinality(x) = 1 THEN ToString(Min(x)) ELSE ToString(Min(x)) \o "," \o Csv(x \ {Min(x)})
RMS == [x \in {Csv(y) : y \in SUBSET (1..3)} |-> CHOOSE y \in SUBSET (1..3) : Csv(y) = x]

----
\* codes
TxAdd(a, b) ==
  LET combo(v) == IF v \in {-2, -3, -4, -9} THEN v - 100 ELSE -100
      first == <<1, -8, -4, -3, -7, -6, -9, -2, -5, -1, 0>>
  IN IF a = b THEN a
     ELSE IF a = -100 THEN combo(b) ELSE IF b = -100 THEN combo(a)
     ELSE IF a < -100 THEN a ELSE IF b < -100 THEN b
     ELSE first[CHOOSE i \in 1..11 : first[i] \in {a, b} /\ \A j \in 1..(i - 1) : first[j] \notin {a, b}]
XaTx(x) == CASE x \in {"ok", "read_only"} -> 0
             [] x \in {"rollback_other", "rollback_deadlock", "rollback_timeout", "rollback_unspecified", "heuristic_hazard"} -> -4
             [] x \in {"heuristic_mix", "heuristic_rollback", "heuristic_commit"} -> -3
             [] x = "invalid_xid" -> -100
             [] x \in {"protocol", "argument"} -> -5
             [] x \in {"resource_error", "resource_fail"} -> -7
             [] x \in {"duplicate_xid", "retry"} -> -8
             [] x = "outside" -> -1
TXCODE == ("ok" :> 0) @@ ("rollback" :> (0-2)) @@ ("mixed" :> (0-3)) @@ ("hazard" :> (0-4)) @@ ("protocol" :> (0-5)) @@ ("error" :> (0-6)) @@ ("fail" :> (0-7)) @@ ("no_begin" :> (0-100))
STCODE == ("ok" :> 0) @@ ("rollback" :> 1) @@ ("timeout" :> 2) @@ ("error" :> 3)
STNAME == <<"ok", "rollback", "timeout", "error">>
StOfMsg(st) == CASE st = "ok" -> 0 [] st = "timeout" -> 1 [] OTHER -> 2         \* the state of a transaction: 0 active, 1 timeout, 2 rollback only

----
\* the state of the process
None == [on |-> FALSE, n |-> 0, conv |-> FALSE, noreply |-> FALSE, svc |-> "-", trid |-> 0]
Init0(mode, fix, all) ==
  [mode |-> mode, fix |-> fix, all |-> all, tx |-> <<>>, empty |-> {}, ctl |-> 0, cret |-> 0, tmo |-> FALSE,
   cd |-> [i \in 1..8 |-> 0], cv |-> <<>>, slot |-> <<>>, xid |-> <<>>, nl |-> 0, sent |-> <<>>, inbox |-> <<>>, disc |-> {}, gone |-> {},
   plan |-> <<>>, srv |-> None, rep |-> [code |-> "service_error", user |-> 0, st |-> 0, data |-> "-"], code |-> <<>>,
   fresh |-> 0, used |-> FALSE, v |-> 0, fc |-> 0, fr |-> 0, cdi |-> 0, err |-> "", r |-> <<>>, tmd |-> FALSE]

Tx(id, own) == [id |-> id, own |-> own, st |-> 0, susp |-> FALSE, ext |-> FALSE, inv |-> <<>>, dyn |-> {}, pend |-> {}, dl |-> FALSE]
Cur(s) == IF Len(s.tx) = 0 THEN 0 ELSE IF s.tx[Len(s.tx)].susp THEN 0 ELSE Len(s.tx)
InTx(s) == Cur(s) # 0 /\ s.tx[Cur(s)].id # 0
CurDyn(s) == IF Cur(s) = 0 THEN s.empty ELSE s.tx[Cur(s)].dyn
Name(id) == ToString(id)
Local(t) == t.own /\ ~t.ext
Info(s) == LET in == InTx(s)
           IN <<IF in THEN "1" ELSE "0", IF in THEN Name(s.tx[Cur(s)].id) ELSE "0", IF Cur(s) # 0 THEN ToString(s.tx[Cur(s)].st) ELSE "0", ToString(s.ctl)>>

\* a step in progress
Conf(s) == [s |-> s, out |-> <<>>, xa |-> <<>>, res |-> <<>>]
Out(c, m) == [c EXCEPT !.out = Append(@, m)]
Res(ret, err, user, data, cd, ev) == <<"res", ToString(ret), err, ToString(user), data, ToString(cd), ToString(ev)>>

----
\* resources
Take(c, rm, en) ==
  LET ix == {i \in DOMAIN c.s.plan : c.s.plan[i].rm = rm /\ c.s.plan[i].en = en}
  IN IF ix = {} THEN <<c, "ok">> ELSE <<[c EXCEPT !.s.plan = RemoveAt(@, Min(ix))], c.s.plan[Min(ix)].code>>
One(c, rm, en, id, fl) == Take([c EXCEPT !.xa = Append(@, <<ToString(rm), en, id, fl>>)], rm, en)
\* a resource that has lost its connection is opened again, and gets one more chance
Xa(c, rm, en, id, fl) ==
  LET a == One(c, rm, en, id, fl)
  IN IF a[2] # "resource_fail" THEN a
     ELSE LET b == One(a[1], rm, "close", "-", "-")
              o == One(b[1], rm, "open", "-", "-")
          IN IF o[2] # "ok" THEN <<o[1], "resource_fail">> ELSE One(o[1], rm, en, id, fl)
XaStart(c, rm, id, fl) ==
  LET a == Xa(c, rm, "start", id, fl)
  IN IF a[2] = "duplicate_xid" /\ fl # "join" THEN One(a[1], rm, "start", id, IF fl = "resume" THEN "join+resume" ELSE "join") ELSE a

Involve(inv, rms) == inv \o SelectSeq(rms, LAMBDA r : ~Contains(inv, r))

\* tell the resources in rms, gives <<c, accumulated tx code>>
RECURSIVE StartR(_, _, _, _, _), EndR(_, _, _, _, _), RollR(_, _, _, _), JoinR(_, _, _, _, _)
StartR(c, id, rms, fl, v) ==
  IF rms = <<>> THEN <<c, v>>
  ELSE LET a == XaStart(c, Head(rms), Name(id), fl) IN StartR(a[1], id, Tail(rms), fl, TxAdd(v, XaTx(a[2])))
EndR(c, id, rms, fl, v) ==
  IF rms = <<>> THEN <<c, v>>
  ELSE LET a == Xa(c, Head(rms), "end", Name(id), fl) IN EndR(a[1], id, Tail(rms), fl, TxAdd(v, XaTx(a[2])))
RollR(c, id, rms, v) ==
  IF rms = <<>> THEN <<c, v>>
  ELSE LET a == Xa(c, Head(rms), "rollback", Name(id), "-") IN RollR(a[1], id, Tail(rms), TxAdd(v, XaTx(a[2])))
JoinR(c, id, rms, known, v) ==
  IF rms = <<>> THEN <<c, v>>
  ELSE LET a == XaStart(c, Head(rms), Name(id), IF Head(rms) \in known THEN "join" ELSE "-") IN JoinR(a[1], id, Tail(rms), known, TxAdd(v, XaTx(a[2])))

StartAll(c, ti, fl) ==
  IF c.s.fix = <<>> THEN <<c, 0>>
  ELSE LET inv == Involve(c.s.tx[ti].inv, c.s.fix)
       IN StartR([c EXCEPT !.s.tx[ti].inv = inv], c.s.tx[ti].id, SelectSeq(inv, LAMBDA r : Contains(c.s.fix, r)), fl, 0)
EndAll(c, t, fl) == EndR(c, t.id, t.inv, fl, 0)

----
\* instructions
I(k) == [k |-> k, g |-> ""]
Pre(c, is) == [c EXCEPT !.s.code = is \o @]
Val(c, v) == [c EXCEPT !.s.v = v]
ApiAt(code) == Min({i \in DOMAIN code : code[i].k = "api"})
\* something that is to be executed when the call is done, regardless (always) or only when it fails (fail)
Guard(c, i) == LET at == ApiAt(c.s.code) IN [c EXCEPT !.s.code = SubSeq(@, 1, at - 1) \o <<i>> \o SubSeq(@, at, Len(@))]
Throw(c, e) ==
  LET at == ApiAt(c.s.code)
      gs == SelectSeq(SubSeq(c.s.code, 1, at - 1), LAMBDA i : i.g # "")
  IN [c EXCEPT !.s.code = [i \in DOMAIN gs |-> [gs[i] EXCEPT !.g = ""]] \o SubSeq(@, at, Len(@)), !.s.err = e]
Block(c) == c

\* messages that has arrived, from n, of the types k
First(s, P(_)) == LET ix == {i \in DOMAIN s.inbox : P(s.inbox[i])} IN IF ix = {} THEN 0 ELSE Min(ix)
Consume(c, i) == [c EXCEPT !.s.inbox = RemoveAt(@, i)]
DiscardN(s, n) ==
  LET i == First(s, LAMBDA m : m.n = n)
  IN IF i # 0 THEN [s EXCEPT !.inbox = RemoveAt(@, i)] ELSE [s EXCEPT !.disc = @ \cup {n}]
RECURSIVE DiscardAll(_, _)
DiscardAll(s, ns) == IF ns = {} THEN s ELSE DiscardAll(DiscardN(s, Min(ns)), ns \ {Min(ns)})

\* the reply to n: its transaction is told
Update(s, n, st) ==
  LET ix == {i \in DOMAIN s.tx : n \in s.tx[i].pend}
  IN IF ix = {} THEN s ELSE [s EXCEPT !.tx[Min(ix)] = [@ EXCEPT !.st = IF @ < st THEN st ELSE @, !.pend = @ \ {n}]]

Free(q, f(_)) == LET ix == {i \in DOMAIN q : f(q[i])} IN IF ix = {} THEN Len(q) + 1 ELSE Min(ix)
ReserveCd(s, n) == LET i == Free(s.cd, LAMBDA x : x = 0) IN [s EXCEPT !.cd = IF i > Len(@) THEN Append(@, n) ELSE [@ EXCEPT ![i] = n], !.cdi = i]
CvNone == [n |-> 0, dup |-> "receive", ini |-> FALSE]
\* (the descriptors of conversations start with 0)
ReserveCv(s, v) == LET i == Free(s.cv, LAMBDA x : x.n = 0) IN [s EXCEPT !.cv = IF i > Len(@) THEN Append(@, v) ELSE [@ EXCEPT ![i] = v], !.cdi = i]
ValidCd(s, i) == i \in DOMAIN s.cd /\ s.cd[i] # 0
ValidCv(s, i) == i \in DOMAIN s.cv /\ s.cv[i].n # 0
Slot(s, k) == IF k \in DOMAIN s.slot THEN s.slot[k] ELSE 9999
CvSlot(s, k) == Slot(s, k) + 1
Put(f, k, v) == (k :> v) @@ f
Who(s, n) == s.sent[n]
Gone(s, n) == Who(s, n) \in s.gone
Invert(d) == IF d = "send" THEN "receive" ELSE "send"

Terminate(c, i, st) ==
  LET n == c.s.cv[i].n IN [c EXCEPT !.s = Update([c.s EXCEPT !.cv[i] = CvNone], n, st)]

\* start a new transaction
BeginTx(c) ==
  LET s == c.s IN
  IF InTx(s) /\ s.ctl # 42 THEN <<c, -5>>
  ELSE IF ~InTx(s) /\ CurDyn(s) # {} THEN <<c, -1>>
  ELSE LET a == IF InTx(s) THEN EndAll(c, s.tx[Cur(s)], "suspend") ELSE <<c, 0>>
       IN IF a[2] # 0 THEN a
          ELSE LET t == [Tx(s.fresh, TRUE) EXCEPT !.dl = s.tmo, !.inv = s.fix]
                   b == [a[1] EXCEPT !.s.tmo = FALSE, !.s.used = TRUE]
                   F[i \in 0..Len(s.fix)] ==
                     IF i = 0 THEN <<b, <<>>, {}>>
                     ELSE LET p == F[i - 1]
                              x == XaStart(p[1], s.fix[i], Name(s.fresh), "-")
                          IN IF x[2] \in {"ok", "read_only"} THEN <<x[1], Append(p[2], s.fix[i]), p[3]>> ELSE <<x[1], p[2], p[3] \cup {s.fix[i]}>>
                   f == F[Len(s.fix)]
               IN IF f[3] = {} THEN <<[f[1] EXCEPT !.s.tx = Append(@, t)], 0>>
                  ELSE \* those that did start are ended and rolled back, and the ongoing transaction continues
                       LET U[i \in 0..Len(f[2])] == IF i = 0 THEN f[1] ELSE Xa(Xa(U[i - 1], f[2][i], "end", Name(s.fresh), "success")[1], f[2][i], "rollback", Name(s.fresh), "-")[1]
                           u == U[Len(f[2])]
                       IN IF ~InTx(s) THEN <<u, -6>>
                          ELSE LET r == StartAll(u, Cur(s), "resume")
                               IN <<IF r[2] = 0 THEN r[1] ELSE [r[1] EXCEPT !.s.tx[Cur(s)].st = 2], -6>>

\* commit and rollback of t, which is not among the transactions any more
CommitTx(c, t) ==
  LET a == EndAll(c, t, "success")
  IN IF a[2] # 0 THEN Pre(a[1], <<[k |-> "rbended", g |-> "", t |-> t], I("endfailed")>>)
     ELSE IF Local(t) /\ Len(t.inv) <= 1
     THEN IF t.inv = <<>> THEN Val(a[1], 0) ELSE LET x == Xa(a[1], t.inv[1], "commit", Name(t.id), "one") IN Val(x[1], XaTx(x[2]))
     ELSE Pre([Out(a[1], <<"commit", Name(t.id), Csv(Range(t.inv))>>) EXCEPT !.s.tmd = FALSE], <<I("wcommit")>>)
RollbackEnded(c, t) ==
  IF Local(t) THEN LET x == RollR(c, t.id, SetToSortSeq(Range(t.inv) \cup Range(c.s.fix), <), 0) IN Val(x[1], x[2])
  ELSE Pre([Out(c, <<"rollback", Name(t.id), Csv(Range(t.inv))>>) EXCEPT !.s.tmd = FALSE], <<I("wrollback")>>)
RollbackTx(c, t) == RollbackEnded(EndAll(c, t, "success")[1], t)

PopLast(s) == [s EXCEPT !.tx = SubSeq(@, 1, Len(@) - 1)]

\* what a service leaves is committed or rolled back
Finalize(c, commit) ==
  LET s == c.s
      bad == {i \in DOMAIN s.tx : s.tx[i].pend # {} /\ s.tx[i].id # 0}
      tx == [i \in DOMAIN s.tx |-> IF i \in bad THEN [s.tx[i] EXCEPT !.st = 2] ELSE s.tx[i]]
      s1 == DiscardAll(s, UNION {s.tx[i].pend : i \in DOMAIN s.tx})
      own == SelectSeq(tx, LAMBDA t : t.id # 0 /\ t.own)
      not == SelectSeq(tx, LAMBDA t : t.id # 0 /\ ~t.own)
      one(t) == IF commit /\ t.st = 0 THEN <<[k |-> "commit", g |-> "", t |-> t], [k |-> "facc", g |-> "", add |-> 0]>>
                ELSE <<[k |-> "rollback", g |-> "", t |-> t], [k |-> "facc", g |-> "", add |-> IF commit THEN -2 ELSE 0]>>
      is == FlattenSeq([i \in DOMAIN own |-> one(own[i])]) \o [i \in DOMAIN not |-> [k |-> "fnot", g |-> "", t |-> not[i], commit |-> commit]]
  IN Pre([c EXCEPT !.s = [s1 EXCEPT !.tx = <<>>, !.fc = 0, !.fr = IF bad = {} THEN 0 ELSE 3]], is)

Level(t) == IF t.st = 0 THEN 0 ELSE IF t.st = 2 THEN 1 ELSE 2

----
\* one instruction: c is without the instruction, i is the instruction
Deadline(s, notran) == IF InTx(s) /\ ~notran /\ s.tx[Cur(s)].dl THEN "deadline" ELSE "-"
Blocking(i, s) ==
  CASE i.k \in {"wlookup", "wcommit", "wcommit2", "wrollback", "wjoin", "wreg", "app"} -> TRUE
    [] i.k = "reply" -> LET cdi == IF i.cd = 0 THEN s.cdi ELSE i.cd
                        IN ~i.nb /\ (i.any \/ ValidCd(s, cdi)) /\ First(s, LAMBDA m : m.k = "reply" /\ (i.any \/ m.n = s.cd[cdi])) = 0
    [] i.k = "wconn" -> First(s, LAMBDA m : m.k \in {"connected", "reply", "send"} /\ m.n = i.n) = 0
    [] i.k = "recv" -> ~i.nb /\ First(s, LAMBDA m : m.k \in {"send", "disconnect", "reply"} /\ m.n = s.cv[i.cv].n) = 0
    [] OTHER -> FALSE

Exec(c, i) ==
  LET s == c.s IN
  CASE i.k = "commit" -> CommitTx(c, i.t)
    [] i.k = "rollback" -> RollbackTx(c, i.t)
    [] i.k = "rbended" -> RollbackEnded(c, i.t)
    [] i.k = "endfailed" -> Val(c, IF s.v = 0 THEN -2 ELSE s.v)
    [] i.k = "cont" ->
         CASE s.ctl = 0 -> c
           [] s.ctl = 1 -> LET b == BeginTx(c) IN Val(b[1], IF b[2] = 0 THEN s.v ELSE TxAdd(s.v, -100))
           [] OTHER -> IF InTx(s) THEN LET r == StartAll(c, Cur(s), "resume") IN Val(r[1], TxAdd(s.v, r[2])) ELSE c
    [] i.k = "txdone" -> [c EXCEPT !.res = Res(s.v, "ok", 0, "-", 0, 0)]
    \* services
    [] i.k = "susp" ->
         LET t == s.tx[Cur(s)]
             c1 == IF t.inv = <<>> THEN c ELSE Out(c, <<"involved", Name(t.id), Csv(Range(t.inv)), "-">>)
             a == EndAll(c1, t, "suspend")
         IN IF a[2] # 0 THEN Throw(a[1], "system") ELSE Guard(a[1], [k |-> "unsusp", g |-> "always", ti |-> Cur(s)])
    [] i.k = "unsusp" -> LET r == StartAll(c, i.ti, "resume") IN IF r[2] = 0 THEN r[1] ELSE [r[1] EXCEPT !.s.tx[i.ti].st = 2]
    [] i.k = "lookup" -> Pre([Out(c, <<"lookup", ToString(i.n), i.svc, i.sem, i.dl>>) EXCEPT !.s.nl = i.n], <<[k |-> "wlookup", g |-> "", n |-> i.n]>>)
    [] i.k = "acall" ->
         LET s1 == IF i.noreply THEN [s EXCEPT !.cdi = 0] ELSE ReserveCd(s, i.n)
             tran == InTx(s) /\ ~i.notran /\ ~i.noreply
             s2 == IF tran THEN [s1 EXCEPT !.tx[Cur(s)] = [@ EXCEPT !.ext = TRUE, !.pend = @ \cup {i.n}]] ELSE s1
             m == <<"call", Who(s, i.n), ToString(i.n), "s" \o ToString(i.n), IF tran THEN Name(s.tx[Cur(s)].id) ELSE "0", IF i.noreply THEN "noreply" ELSE "-", i.data>>
         IN IF Gone(s, i.n)
            THEN Throw([c EXCEPT !.s = IF i.noreply THEN s ELSE [IF tran THEN [s2 EXCEPT !.tx[Cur(s)].pend = @ \ {i.n}] ELSE s2 EXCEPT !.cd[s2.cdi] = 0]], "system")
            ELSE [Out(c, m) EXCEPT !.s = s2]
    [] i.k = "adone" -> [c EXCEPT !.s.r = Res(s.cdi, "ok", 0, "-", 0, 0)]
    [] i.k = "reply" ->
         LET cdi == IF i.cd = 0 THEN s.cdi ELSE i.cd
         IN IF ~i.any /\ ~ValidCd(s, cdi) THEN Throw(c, "descriptor")
            ELSE LET x == First(s, LAMBDA m : m.k = "reply" /\ (i.any \/ m.n = s.cd[cdi]))
                 IN IF x = 0 THEN Throw(c, "block")
                    ELSE LET m == s.inbox[x]
                             ix == {j \in DOMAIN s.cd : s.cd[j] = m.n}
                             d == Consume(c, x)
                         IN IF ix = {} THEN Throw(d, "descriptor")
                            ELSE LET e == [d EXCEPT !.s = Update([d.s EXCEPT !.cd[Min(ix)] = 0], m.n, StOfMsg(m.st))]
                                     shown == IF i.cd = 0 /\ ~i.any THEN 0 ELSE Min(ix)
                                 IN IF m.code = "ok" THEN [e EXCEPT !.s.r = Res(0, "ok", m.user, m.data, shown, 0)]
                                    ELSE IF m.code = "service_fail" THEN [Throw(e, "service_fail") EXCEPT !.s.r = Res(-1, "service_fail", m.user, m.data, shown, 0)]
                                    ELSE Throw(e, m.code)
    [] i.k = "api" ->
         LET e == s.err
             d == [c EXCEPT !.s.err = "", !.s.r = <<>>]
         IN CASE i.form = "server" -> [d EXCEPT !.s.srv = None, !.s.inbox = <<>>]
              [] e = "" -> [d EXCEPT !.res = s.r, !.s.slot = IF i.slot # "" /\ s.r[2] # "-1" THEN Put(@, i.slot, N(s.r[2])) ELSE @]
              [] e = "service_fail" /\ s.r # <<>> -> [d EXCEPT !.res = s.r]
              [] OTHER -> [d EXCEPT !.res = Res(-1, IF i.form = "getrply" /\ e = "no_entry" THEN "service_error" ELSE e, 0, "-", i.cd, 0)]
    \* conversations
    [] i.k = "conn" ->
         LET tran == InTx(s) /\ ~i.notran
             s2 == IF tran THEN [s EXCEPT !.tx[Cur(s)] = [@ EXCEPT !.ext = TRUE, !.pend = @ \cup {i.n}]] ELSE s
             m == <<"connect", Who(s, i.n), ToString(i.n), "s" \o ToString(i.n), IF tran THEN Name(s.tx[Cur(s)].id) ELSE "0", Invert(s.cv[i.cv].dup), i.data>>
         IN IF Gone(s, i.n) THEN Throw(Out([c EXCEPT !.s = s2], <<"ack", ToString(i.n), "ok">>), "system")
            ELSE Pre([Out(c, m) EXCEPT !.s = s2], <<[k |-> "wconn", g |-> "", n |-> i.n, cv |-> i.cv]>>)
    [] i.k = "wconn" ->
         LET x == First(s, LAMBDA m : m.k \in {"connected", "reply", "send"} /\ m.n = i.n)
             d == Consume(c, x)
                      st == IF s.inbox[x].k = "send" THEN StOfMsg(s.inbox[x].st) ELSE 0
         IN IF s.inbox[x].k = "connected" /\ s.inbox[x].code # "ok" THEN Throw(d, IF s.inbox[x].code \in {"no_entry", "timeout"} THEN s.inbox[x].code ELSE "system")
            ELSE IF s.inbox[x].k # "connected" THEN Throw([d EXCEPT !.s.code = [j \in DOMAIN @ |-> IF @[j].k = "term" THEN [@[j] EXCEPT !.st = st] ELSE @[j]]], "system") ELSE [d EXCEPT !.s.r = Res(i.cv - 1, "ok", 0, "-", 0, 0)]
    [] i.k = "term" -> Terminate(c, i.cv, i.st)
    [] i.k = "recv" ->
         LET n == s.cv[i.cv].n
             x == First(s, LAMBDA m : m.k \in {"send", "disconnect", "reply"} /\ m.n = n)
             event(d, ev, user, data) == [d EXCEPT !.s.r = Res(-1, "event", user, data, 0, ev)]
             dis == First(s, LAMBDA m : m.k = "disconnect" /\ m.n = n)
         IN IF dis # 0 THEN event(Terminate(Consume(c, dis), i.cv, 2), 1, 0, "-")
            ELSE IF x = 0 THEN Throw(c, "block")
            ELSE LET m == s.inbox[x] d == Consume(c, x)
                 IN IF m.k = "reply" THEN event(Terminate(d, i.cv, 2), 2, 0, "-")
                    ELSE IF m.code = "absent"
                    THEN IF m.dup = "send" THEN event([d EXCEPT !.s.cv[i.cv].dup = "send"], 32, 0, m.data)
                         ELSE [d EXCEPT !.s.r = Res(0, "ok", 0, m.data, 0, 0)]
                    ELSE event(Terminate(d, i.cv, StOfMsg(m.st)), CASE m.code = "ok" -> 8 [] m.code = "service_fail" -> 4 [] OTHER -> 2,
                               IF m.code \in {"ok", "service_fail"} THEN m.user ELSE 0, m.data)
    \* the execution of a service
    [] i.k = "txstart" ->
         LET t == s.srv.trid
             kind == CASE s.srv.svc \in {"automatic", "branch"} /\ t = 0 -> "start" [] s.srv.svc = "atomic" -> "start"
                       [] s.srv.svc \in {"automatic", "join"} -> "join" [] s.srv.svc = "branch" -> "branch" [] OTHER -> "none"
         IN (CASE kind = "none" -> [c EXCEPT !.s.tx = Append(@, Tx(0, FALSE))]
              [] kind = "join" -> IF t = 0 \/ s.fix = <<>> THEN [c EXCEPT !.s.tx = Append(@, Tx(t, FALSE))]
                                  ELSE Pre([Out(c, <<"involved", Name(t), Csv(Range(s.fix)), "reply">>) EXCEPT !.s.tx = Append(@, Tx(t, FALSE)), !.s.tmd = FALSE], <<I("wjoin")>>)
              [] kind = "start" -> LET d == [c EXCEPT !.s.tx = Append(@, Tx(s.fresh, TRUE)), !.s.used = TRUE]
                                       r == StartAll(d, Len(d.s.tx), "-")
                                   IN IF r[2] = 0 THEN r[1] ELSE Throw(r[1], "service_error")
              [] kind = "branch" -> LET d == [c EXCEPT !.s.tx = Append(@, Tx(t + 50, FALSE))]
                                        e == IF s.fix = <<>> THEN d ELSE Out(d, <<"involved", Name(t + 50), Csv(Range(s.fix)), "-">>)
                                        r == StartAll(e, Len(e.s.tx), "-")
                                    IN IF r[2] = 0 THEN r[1] ELSE Throw(r[1], "service_error"))
    [] i.k = "enter" ->
         LET s1 == IF s.srv.conv THEN ReserveCv(s, [n |-> s.srv.n, dup |-> i.dup, ini |-> FALSE]) ELSE s
             names == (IF s.srv.conv THEN <<"conv">> ELSE <<>>) \o (IF InTx(s) THEN <<"tran">> ELSE <<>>) \o (IF s.srv.noreply THEN <<"noreply">> ELSE <<>>)
                      \o (IF s.srv.conv THEN IF i.dup = "receive" THEN <<"recvonly">> ELSE <<"sendonly">> ELSE <<>>)
             text == IF names = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "+" \o b, "", names)
             d == IF s.srv.conv THEN Guard([Out(c, <<"connected", ToString(s.srv.n)>>) EXCEPT !.s = [s1 EXCEPT !.slot = Put(@, "0", s1.cdi - 1)]], [k |-> "unres", g |-> "always"]) ELSE c
         IN [d EXCEPT !.res = <<"enter", s.srv.svc, text, "q" \o ToString(s.srv.n)>>]
    [] i.k = "unres" -> IF ValidCv(s, CvSlot(s, "0")) /\ s.cv[CvSlot(s, "0")].n = s.srv.n THEN [c EXCEPT !.s.cv[CvSlot(s, "0")] = CvNone] ELSE c
    [] i.k = "fin" -> Finalize(c, i.commit)
    [] i.k = "facc" -> [c EXCEPT !.s.fc = TxAdd(@, TxAdd(s.v, i.add))]
    [] i.k = "fnot" ->
         LET a == EndAll(c, i.t, "success")
             l == IF s.fr > Level(i.t) THEN s.fr ELSE Level(i.t)
         IN [a[1] EXCEPT !.s.fc = TxAdd(@, a[2]), !.s.fr = IF ~i.commit /\ l = 0 THEN 1 ELSE l]
    [] i.k = "setst" -> LET l == IF s.fc = 0 THEN 0 ELSE IF s.fc = -2 THEN 1 ELSE 3 IN [c EXCEPT !.s.rep.st = IF s.fr > l THEN s.fr ELSE l]
    [] i.k = "errfin" -> Pre(c, <<[k |-> "fin", g |-> "", commit |-> FALSE], I("setst")>>)
    [] i.k = "sreply" ->
         IF s.srv.noreply THEN c
         ELSE LET code == IF s.rep.code = "ok" /\ s.rep.st # 0 THEN "service_error" ELSE s.rep.code
                  n == ToString(s.srv.n) st == STNAME[s.rep.st + 1] user == ToString(s.rep.user)
              IN [Out(c, IF s.srv.conv THEN <<"send", "caller", n, "terminated", code, user, st, s.rep.data>> ELSE <<"reply", "caller", n, code, user, st, s.rep.data>>)
                  EXCEPT !.s.rep.code = code]
    [] i.k = "ack" -> Out(c, <<"ack", ToString(s.srv.n), s.rep.code>>)
    [] i.k = "fwdcheck" ->
         IF \E x \in DOMAIN s.tx : s.tx[x].own /\ s.tx[x].id # 0 THEN Throw(c, "service_error")
         ELSE IF InTx(s) /\ (s.tx[Cur(s)].st # 0 \/ s.tx[Cur(s)].pend # {}) THEN Throw(c, "service_error")
         ELSE c
    [] i.k = "fwd" ->
         IF Gone(s, i.n) THEN Throw(c, "system")
         ELSE Out(c, <<"call", Who(s, i.n), ToString(s.srv.n), "s" \o ToString(i.n), Name(s.srv.trid), IF s.srv.noreply THEN "noreply" ELSE "-", i.data>>)
    [] i.k = "forwarded" -> [c EXCEPT !.s.rep.code = "ok", !.s.code = SelectSeq(@, LAMBDA x : x.k # "sreply")]

RECURSIVE Run(_)
Run(c) ==
  IF c.s.code = <<>> THEN c
  ELSE LET i == Head(c.s.code)
           d == [c EXCEPT !.s.code = Tail(@)]
       IN IF i.g = "fail" THEN Run(d)
          ELSE IF Blocking(i, c.s) THEN c
          ELSE Run(Exec(d, i))

----
\* what the application does
Api(form, slot, cd) == [k |-> "api", g |-> "", form |-> form, slot |-> slot, cd |-> cd]
Lookup(s, svc, sem, dl) == [k |-> "lookup", g |-> "", n |-> s.nl + 1, svc |-> svc, sem |-> sem, dl |-> dl]
Direct(c, r) == [c EXCEPT !.res = r]
Err(c, e, cd) == Direct(c, Res(-1, e, 0, "-", cd, 0))
Tx0(c, v) == Direct(c, Res(v, "ok", 0, "-", 0, 0))

SvcCall(c, form, slot, svc, f, data) ==
  LET s == c.s
      notran == "notran" \in f noreply == "noreply" \in f
      n == s.nl + 1
      send == <<Lookup(s, svc, IF noreply THEN "noreply" ELSE "regular", Deadline(s, notran)),
                [k |-> "acall", g |-> "", n |-> n, noreply |-> noreply, notran |-> notran, data |-> data]>>
  IN IF (form = "call" /\ noreply) \/ (InTx(s) /\ ~notran /\ noreply) THEN Err(c, "argument", 0)
     ELSE IF form = "call"
     THEN Pre(c, (IF InTx(s) /\ ~notran THEN <<I("susp")>> ELSE <<>>) \o send \o <<[k |-> "reply", g |-> "", any |-> FALSE, cd |-> 0, nb |-> FALSE], Api("call", "", 0)>>)
     ELSE Pre(c, send \o <<I("adone"), Api("acall", IF noreply THEN "" ELSE slot, 0)>>)

Op(c, w) ==
  LET s == c.s k == w[3] IN
  CASE k = "begin" -> LET b == BeginTx(c) IN Tx0(b[1], b[2])
    [] k \in {"commit", "rollback"} ->
         LET t == s.tx[Cur(s)]
         IN IF ~InTx(s) THEN Tx0(c, -5)
            ELSE IF ~t.own THEN Tx0(c, -5)
            ELSE IF k = "commit" /\ (t.st # 0 \/ t.pend # {}) THEN Tx0(c, -5)
            ELSE Pre([c EXCEPT !.s = PopLast(s)], <<[k |-> k, g |-> "", t |-> t], I("cont"), I("txdone")>>)
    [] k = "suspend" ->
         IF ~InTx(s) THEN Tx0(c, -5)
         ELSE LET a == EndAll(c, s.tx[Cur(s)], "suspend")
              IN IF a[2] # 0 THEN Tx0(a[1], -5)
                 ELSE [a[1] EXCEPT !.s.tx[Cur(s)].susp = TRUE, !.s.xid = Put(@, w[4], s.tx[Cur(s)].id), !.res = Res(0, "ok", 0, Name(s.tx[Cur(s)].id), 0, 0)]
    [] k = "resume" ->
         IF w[4] \notin DOMAIN s.xid THEN Tx0(c, -8)
         ELSE IF InTx(s) THEN Tx0(c, -5)
         ELSE IF CurDyn(s) # {} THEN Tx0(c, -1)
         ELSE LET ix == {x \in DOMAIN s.tx : s.tx[x].id = s.xid[w[4]]}
              IN IF ix = {} THEN Tx0(c, -8)
                 ELSE LET x == Min(ix)
                          a == StartAll(c, x, "resume")
                          b == [a[1] EXCEPT !.s.tx[x].susp = FALSE]
                      IN IF ~s.tx[x].susp THEN Tx0(c, -5)
                         ELSE IF a[2] # 0 THEN Tx0(a[1], -8)
                         ELSE Tx0([b EXCEPT !.s.tx = SubSeq(@, x + 1, Len(@)) \o SubSeq(@, 1, x)], 0)
    [] k = "control" -> Tx0([c EXCEPT !.s.ctl = N(w[4])], 0)
    [] k = "creturn" -> Tx0([c EXCEPT !.s.cret = N(w[4])], 0)
    [] k = "timeout" -> Tx0([c EXCEPT !.s.tmo = w[4] # "0"], 0)
    [] k = "axreg" ->
         LET rm == N(w[4])
             id == IF InTx(s) THEN Name(s.tx[Cur(s)].id) ELSE "null"
             done(d, v) == Direct(d, Res(v, "ok", 0, IF v >= 0 THEN id ELSE "-", 0, 0))
             reg == IF Cur(s) = 0 THEN [c EXCEPT !.s.empty = @ \cup {rm}] ELSE [c EXCEPT !.s.tx[Cur(s)].dyn = @ \cup {rm}]
         IN IF Contains(s.fix, rm) \/ ~Contains(s.all, rm) THEN done(c, -2)
            ELSE IF rm \in CurDyn(s) THEN Direct(c, Res(1, "ok", 0, "0", 0, 0))
            ELSE IF ~InTx(s) THEN done(reg, 0)
            ELSE IF Contains(s.tx[Cur(s)].inv, rm) THEN done(reg, 2)
            ELSE LET d == [reg EXCEPT !.s.tx[Cur(s)].inv = Append(@, rm)]
                 IN IF Local(s.tx[Cur(s)]) THEN done(d, 0)
                    ELSE Pre([Out(d, <<"involved", id, ToString(rm), "reply">>) EXCEPT !.s.tmd = FALSE], <<[k |-> "wreg", g |-> "", rm |-> rm, id |-> id]>>)
    [] k = "axunreg" ->
         LET rm == N(w[4])
         IN IF InTx(s) \/ rm \notin CurDyn(s) THEN Tx0(c, -3)
            ELSE Tx0(IF Cur(s) = 0 THEN [c EXCEPT !.s.empty = @ \ {rm}] ELSE [c EXCEPT !.s.tx[Cur(s)].dyn = @ \ {rm}], 0)
    [] k = "call" -> SvcCall(c, "call", "", w[4], FLAGS[w[5]], w[6])
    [] k = "acall" -> SvcCall(c, "acall", w[4], w[5], FLAGS[w[6]], w[7])
    [] k = "getrply" ->
         LET f == FLAGS[w[5]] any == "any" \in f
             cd == IF w[4] = "any" THEN 9998 ELSE Slot(s, w[4])
         IN Pre(c, <<[k |-> "reply", g |-> "", any |-> any, cd |-> cd, nb |-> "noblock" \in f], Api("getrply", "", cd)>>)
    [] k = "cancel" ->
         LET i == Slot(s, w[4])
         IN IF ~ValidCd(s, i) THEN Err(c, "descriptor", 0)
            ELSE IF \E x \in DOMAIN s.tx : s.tx[x].st = 0 /\ s.cd[i] \in s.tx[x].pend THEN Err(c, "transaction", 0)
            ELSE Direct([c EXCEPT !.s = [DiscardN(s, s.cd[i]) EXCEPT !.cd[i] = 0]], Res(0, "ok", 0, "-", 0, 0))
    [] k = "connect" ->
         LET f == FLAGS[w[6]]
             n == s.nl + 1
             d == [c EXCEPT !.s = ReserveCv(s, [n |-> n, dup |-> IF "recvonly" \in f THEN "receive" ELSE "send", ini |-> TRUE])]
         IN IF Cardinality(f \cap {"recvonly", "sendonly"}) # 1 THEN Err(c, "argument", 0)
            ELSE Pre(d, <<Lookup(s, w[5], "regular", "-"), [k |-> "conn", g |-> "", n |-> n, cv |-> d.s.cdi, notran |-> "notran" \in f, data |-> w[7]],
                          [k |-> "term", g |-> "fail", cv |-> d.s.cdi, st |-> 0], Api("connect", w[4], 0)>>)
    [] k = "send" ->
         LET i == CvSlot(s, w[4]) f == FLAGS[w[5]]
             n == s.cv[i].n
             dup == IF "recvonly" \in f THEN "receive" ELSE "send"
             dis == First(s, LAMBDA m : m.k = "disconnect" /\ m.n = n)
             x == First(s, LAMBDA m : m.k \in {"send", "reply"} /\ m.n = n)
             event(d, ev, user) == Direct(d, Res(-1, "event", user, "-", 0, ev))
         IN IF ~ValidCv(s, i) THEN Err(c, "descriptor", 0)
            ELSE IF s.cv[i].dup # "send" THEN Err(c, "protocol", 0)
            ELSE IF dis # 0 THEN event(Terminate(Consume(c, dis), i, 2), 1, 0)
            ELSE IF x # 0
            THEN LET m == s.inbox[x] d == Consume(c, x)
                 IN IF m.k = "reply" THEN event(Terminate(d, i, 2), 2, 0)
                    ELSE event(Terminate(d, i, StOfMsg(m.st)), IF m.code = "service_fail" THEN 4 ELSE 2, IF m.code = "service_fail" THEN m.user ELSE 0)
            ELSE IF Gone(s, n) THEN Err(Terminate(c, i, 2), "system", 0)
            ELSE Direct(Out([c EXCEPT !.s.cv[i].dup = dup], <<"send", Who(s, n), ToString(n), Invert(dup), "absent", "0", "ok", w[6]>>), Res(0, "ok", 0, "-", 0, 0))
    [] k = "recv" ->
         LET i == CvSlot(s, w[4])
         IN IF ~ValidCv(s, i) THEN Err(c, "descriptor", 0)
            ELSE IF s.cv[i].dup # "receive" THEN Err(c, "protocol", 0)
            ELSE Pre(c, <<[k |-> "recv", g |-> "", cv |-> i, nb |-> "noblock" \in FLAGS[w[5]]], Api("recv", "", 0)>>)
    [] k = "discon" ->
         LET i == CvSlot(s, w[4])
             n == s.cv[i].n
         IN IF ~ValidCv(s, i) THEN Err(c, "descriptor", 0)
            ELSE IF ~s.cv[i].ini THEN Err(c, "descriptor", 0)
            ELSE IF Gone(s, n) THEN Err(Terminate(c, i, 2), "system", 0)
            ELSE Direct(Out(Terminate(c, i, 2), <<"disconnect", Who(s, n), ToString(n)>>), Res(0, "ok", 0, "-", 0, 0))
    [] k = "return" ->
         LET ok == w[4] = "success"
         IN [c EXCEPT !.s.code = <<[k |-> "fin", g |-> "", commit |-> ok], I("setst")>> \o Tail(@),
                      !.s.rep = [code |-> IF ok THEN "ok" ELSE "service_fail", user |-> N(w[5]), st |-> 0, data |-> w[6]]]
    [] k = "forward" ->
         [c EXCEPT !.s.code = <<I("fwdcheck"), Lookup(s, w[4], "noreply", "-"), [k |-> "fwd", g |-> "", n |-> s.nl + 1, data |-> w[5]],
                                [k |-> "fin", g |-> "", commit |-> TRUE], I("forwarded")>> \o Tail(@)]

\* what a service did not wait for is of no interest to the next one
Message(c, m) == IF m.n \in c.s.disc THEN [c EXCEPT !.s.disc = @ \ {m.n}] ELSE IF c.s.mode = "server" /\ ~c.s.srv.on THEN c ELSE [c EXCEPT !.s.inbox = Append(@, m)]
Msg(k, n, code, user, st, data, dup) == [k |-> k, n |-> n, code |-> code, user |-> user, st |-> st, data |-> data, dup |-> dup]
Pop(c) == [c EXCEPT !.s.code = Tail(@)]

\* a step, w is the words of it
Apply(s, w) ==
  LET c == Conf(s)
      i == Head(s.code)
  IN
  CASE w[1] = "xa" -> [c EXCEPT !.s.plan = Append(@, [rm |-> N(w[2]), en |-> w[3], code |-> w[4]])]
    [] w[1] = "op" -> Run(Op([c EXCEPT !.s.fresh = N(w[2]), !.s.used = FALSE], w))
    [] w[1] = "lookup" ->
         Run(CASE w[3] = "idle" -> [Pop(c) EXCEPT !.s.sent = Put(@, i.n, w[4])]
               [] w[3] = "absent" -> Throw(Pop(c), "no_entry")
               [] OTHER -> Throw(Pop(c), "timeout"))
    [] w[1] = "reply" -> Run(Message(c, Msg("reply", N(w[2]), w[3], N(w[4]), w[5], "r" \o w[2], "-")))
    [] w[1] = "connected" -> Run(Message(c, Msg("connected", N(w[2]), w[3], 0, "ok", "-", "-")))
    [] w[1] = "send" -> Run(Message(c, Msg("send", N(w[2]), w[4], N(w[5]), w[6], w[7], w[3])))
    [] w[1] = "disconnect" -> Run(Message(c, Msg("disconnect", N(w[2]), "-", 0, "ok", "-", "-")))
    [] w[1] = "gone" -> [c EXCEPT !.s.gone = @ \cup {w[2]}]
    [] w[1] = "tm" ->
         IF s.tmd THEN [c EXCEPT !.s.tmd = FALSE]     \* the decision was enough
         ELSE (CASE i.k = "wcommit" ->
                     (CASE w[3] = "commit" -> Run(Val(Pop(c), TXCODE[w[2]]))
                        [] w[3] = "rollback" -> Run(Val(Pop(c), -2))
                        [] OTHER -> IF s.cret = 1 THEN Run([Val(Pop(c), TXCODE[w[2]]) EXCEPT !.s.tmd = TRUE])
                                    ELSE [c EXCEPT !.s.code = <<I("wcommit2")>> \o Tail(@)])
                [] i.k \in {"wcommit2", "wrollback"} -> Run(Val(Pop(c), TXCODE[w[2]]))
                [] i.k = "wjoin" ->
                     LET ti == Len(s.tx)
                         a == JoinR([Pop(c) EXCEPT !.s.tx[ti].inv = s.fix], s.tx[ti].id, s.fix, RMS[w[4]], 0)
                     IN Run(IF a[2] = 0 THEN a[1] ELSE Throw(a[1], "service_error"))
                [] i.k = "wreg" -> Run(Direct(Pop(c), Res(IF i.rm \in RMS[w[4]] THEN 2 ELSE 0, "ok", 0, i.id, 0, 0))))
    [] w[1] \in {"serve", "converse"} ->
         LET conv == w[1] = "converse"
             srv == [on |-> TRUE, n |-> N(w[2]), conv |-> conv, noreply |-> ~conv /\ w[5] = "1", svc |-> w[3], trid |-> N(w[4])]
             guard(k, g) == [k |-> k, g |-> g]
         IN Run([c EXCEPT !.s.srv = srv, !.s.fresh = N(w[6]), !.s.used = FALSE, !.s.sent = Put(@, srv.n, "caller"),
                          !.s.rep = [code |-> "service_error", user |-> 0, st |-> 0, data |-> "-"],
                          !.s.code = <<I("txstart"), [k |-> "enter", g |-> "", dup |-> w[5]], I("app"), guard("errfin", "fail"),
                                       guard("sreply", "always"), guard("ack", "always"), Api("server", "", 0)>>])
    [] OTHER -> c
=============================================================================
