------------------------------- MODULE Domain -------------------------------
(* The domain manager: starts the servers and the executables of a domain,    *)
(* group by group, keeps as many of them as are wanted, leads those who look  *)
(* a process up to it, and takes everything down, in the reverse order.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Join(q) == IF q = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", q)
P(i) == "p" \o ToString(i)
Ps(q) == Join([i \in DOMAIN q |-> P(q[i])])
Indexes(q, Test(_)) == SelectSeq([i \in DOMAIN q |-> i], Test)

(* groups: <<[name, deps]>>, in the order they are configured.                *)
(* Those that depend on others come after them                                *)
RECURSIVE Order(_, _)
Order(done, rest) ==
  IF rest = <<>> THEN done
  ELSE LET free == Indexes(rest, LAMBDA i : \A j \in DOMAIN rest : rest[j].name \notin rest[i].deps)
           k == IF free = <<>> THEN 1 ELSE free[1]
       IN Order(Append(done, rest[k].name), SubSeq(rest, 1, k - 1) \o SubSeq(rest, k + 1, Len(rest)))

(* an entity is [alias, server, restart, group, inst], an instance [p, want, conn], p = 0 when there is no process *)
None == [p |-> 0, want |-> TRUE, conn |-> FALSE]
Alive(i) == i.p # 0
Running(e, i) == i.want /\ Alive(i) /\ (e.server => i.conn)
Spawned(e, i) == i.want /\ Alive(i) /\ ~Running(e, i)
ScaleOut(i) == i.want /\ ~Alive(i)
ScaleIn(i) == ~i.want /\ Alive(i)
Settled(e) == \A i \in Range(e.inst) : ~Spawned(e, i) /\ ~ScaleOut(i) /\ ~ScaleIn(i)

(* those that run are kept first, those without a process go first *)
Scale(e, n) ==
  LET grown == e.inst \o [i \in 1..(IF n > Len(e.inst) THEN n - Len(e.inst) ELSE 0) |-> None]
      all == SelectSeq(grown, LAMBDA i : Running(e, i)) \o SelectSeq(grown, LAMBDA i : Alive(i) /\ ~Running(e, i)) \o SelectSeq(grown, LAMBDA i : ~Alive(i))
      marked == [i \in DOMAIN all |-> [all[i] EXCEPT !.want = i <= n]]
  IN [e EXCEPT !.inst = SelectSeq(marked, LAMBDA i : i.want \/ Alive(i))]

Row(t, r) == [t EXCEPT !.rows = Append(@, r)]
Holder(t, p) == {<<k, i>> \in UNION {{k} \X DOMAIN t.ents[k].inst : k \in DOMAIN t.ents} : t.ents[k].inst[i].p = p}
Die(t, p) == IF p \in t.held THEN [t EXCEPT !.told = @ \cup {p}] ELSE IF p \in Range(t.dying) THEN t ELSE [t EXCEPT !.dying = Append(@, p)]

(* servers that are connected are asked to stop, the rest are terminated *)
In(t, k) ==
  LET e == t.ents[k]
      all == Reverse(SelectSeq(e.inst, ScaleIn))
  IN FoldLeft(LAMBDA a, i : IF e.server /\ i.conn THEN Row(a, <<"stop", P(i.p)>>) ELSE Die(a, i.p), t, all)
Out(t, k) ==
  LET e == t.ents[k]
      all == Indexes(e.inst, LAMBDA i : ScaleOut(e.inst[i]))
      pids == [i \in DOMAIN all |-> t.next + i - 1]
  IN IF all = <<>> THEN t
     ELSE Row([t EXCEPT !.next = @ + Len(all), !.up = @ \cup Range(pids),
                        !.ents[k].inst = [i \in DOMAIN @ |-> IF \E j \in DOMAIN all : all[j] = i
                                                             THEN [@[i] EXCEPT !.p = pids[CHOOSE j \in DOMAIN all : all[j] = i]] ELSE @[i]]],
              <<"spawn", e.alias, Ps(pids)>>)
Instances(t, k) == Out(In(t, k), k)

(* a restart takes the processes there are, one at a time from the last. With servers, the next is asked to stop when what has *)
(* replaced the others have connected *)
Ask(t, k) ==
  LET p == Last(t.tasks[1].re[k].procs)
      x == CHOOSE y \in Holder(t, p) : TRUE
      a == [t EXCEPT !.tasks[1].re[k].asked = p]
  IN IF t.tasks[1].re[k].asked = p THEN t
     ELSE IF t.ents[k].server /\ t.ents[k].inst[x[2]].conn THEN Row(a, <<"stop", P(p)>>) ELSE Die(a, p)
Proceed(t, k) ==
  LET u == t.tasks[1].re[k]
      e == t.ents[k]
  IN IF e.server /\ \E i \in Range(e.inst) : Spawned(e, i) /\ i.p \notin Range(u.procs) THEN t
     ELSE IF u.procs # <<>> THEN Ask(t, k)
     ELSE [t EXCEPT !.tasks[1].re[k].fin = TRUE, !.ents[k].restart = u.restart]
Restarting(t) == t.tasks # <<>> /\ t.tasks[1].on /\ t.tasks[1].mode = "restart"
Units(t) == IF Restarting(t) THEN {k \in DOMAIN t.tasks[1].re : ~t.tasks[1].re[k].fin} ELSE {}
(* p has exited, and has been replaced if it's going to, or connected *)
RestartAll(t, p) ==
  LET Without(x) == [x EXCEPT !.procs = SelectSeq(@, LAMBDA q : q # p)]
      z == IF Restarting(t) THEN [t EXCEPT !.tasks[1].re = [k \in DOMAIN @ |-> Without(@[k])]] ELSE t
  IN FoldSet(LAMBDA k, a : Proceed(a, k), z, Units(t))
RestartConnect(t) == FoldSet(LAMBDA k, a : IF t.ents[k].server THEN Proceed(a, k) ELSE a, t, Units(t))

(* a process has exited *)
Exit(t, p) ==
  LET at == Holder(t, p)
      base == Row([t EXCEPT !.up = @ \ {p}, !.held = @ \ {p}, !.told = @ \ {p}, !.dying = SelectSeq(@, LAMBDA x : x # p),
                            !.single = IF @ = p THEN 0 ELSE @, !.extra = @ \ {p}], <<"exit", P(p)>>)
  IN IF at = {} THEN RestartAll(base, p)
     ELSE LET k == (CHOOSE x \in at : TRUE)[1]
              n == (CHOOSE x \in at : TRUE)[2]
              e == t.ents[k]
              again == e.restart /\ t.lvl # "shutdown"
              q == IF ~e.inst[n].want THEN SubSeq(e.inst, 1, n - 1) \o SubSeq(e.inst, n + 1, Len(e.inst))
                   ELSE [e.inst EXCEPT ![n] = [p |-> 0, want |-> e.restart, conn |-> FALSE]]
              gone == [base EXCEPT !.ents[k].inst = q]
              more == IF again THEN Instances(gone, k) ELSE gone
          IN RestartAll(more, p)

(* the tasks are done one at a time, and one that scales is done when what it scales is as wanted *)
Done(t, x) == IF x.mode = "restart" THEN \A k \in DOMAIN x.re : x.re[k].fin ELSE \A k \in Range(x.ents) : Settled(t.ents[k])
StartRestart(t) ==
  LET x == t.tasks[1]
      Procs(k) == LET q == SelectSeq(t.ents[k].inst, Alive) IN [i \in DOMAIN q |-> q[i].p]
      u == [t EXCEPT !.tasks[1].on = TRUE,
                     !.tasks[1].re = [k \in Range(x.ents) |-> [procs |-> Procs(k), asked |-> 0, restart |-> t.ents[k].restart, fin |-> Procs(k) = <<>>]],
                     !.ents = [k \in DOMAIN @ |-> IF k \in Range(x.ents) /\ Procs(k) # <<>> THEN [@[k] EXCEPT !.restart = TRUE] ELSE @[k]]]
  IN FoldLeft(LAMBDA a, k : IF u.tasks[1].re[k].fin THEN a ELSE Ask(a, k), u, x.ents)
Start(t) ==
  LET x == t.tasks[1]
      scaled == [t EXCEPT !.ents = [k \in DOMAIN @ |-> IF \E c \in x.to : c[1] = k THEN Scale(@[k], (CHOOSE c \in x.to : c[1] = k)[2]) ELSE @[k]],
                          !.tasks[1].on = TRUE]
  IN IF x.what # "" THEN Row([t EXCEPT !.tasks = Tail(@), !.lvl = IF x.what = "boot" THEN "running" ELSE @], <<"done", x.what>>)
     ELSE IF x.mode = "restart" THEN StartRestart(t)
     ELSE FoldLeft(Instances, scaled, x.ents)
(* the order in which those that have been told to die do it matters only if they are replaced *)
RECURSIVE Run(_)
Run(t) ==
  IF t.tasks # <<>> /\ ~t.tasks[1].on THEN Run(Start(t))
  ELSE IF t.tasks # <<>> /\ Done(t, t.tasks[1]) THEN Run([t EXCEPT !.tasks = Tail(@)])
  ELSE IF t.dying # <<>> THEN UNION {Run(Exit(t, p)) : p \in IF Units(t) = {} THEN {t.dying[1]} ELSE Range(t.dying)}
  ELSE {[t EXCEPT !.gone = t.lvl = "shutdown" /\ t.tasks = <<>>]}

Task(es, to) == [what |-> "", ents |-> es, to |-> to, on |-> FALSE, mode |-> "scale", re |-> <<>>]
Restart(es) == [Task(es, {}) EXCEPT !.mode = "restart"]
End(what) == [Task(<<>>, {}) EXCEPT !.what = what]
Groups(t) == SelectSeq([g \in DOMAIN t.groups |-> Task(Indexes(t.ents, LAMBDA k : t.ents[k].group = t.groups[g]), {})], LAMBDA x : x.ents # <<>>)

(* gs: <<[name, deps]>>, es: <<[alias, server, n, restart, group]>> *)
Boot(gs, es) ==
  LET sorted == SelectSeq(es, LAMBDA e : e.server) \o SelectSeq(es, LAMBDA e : ~e.server)
      t == [groups |-> Order(<<>>, gs), lvl |-> "startup", gone |-> FALSE, rows |-> <<>>, tasks |-> <<>>,
            ents |-> [k \in DOMAIN sorted |-> [alias |-> sorted[k].alias, server |-> sorted[k].server, restart |-> sorted[k].restart, group |-> sorted[k].group,
                                               inst |-> [i \in 1..sorted[k].n |-> None]]],
            next |-> 1,           \* the next process
            up |-> {}, held |-> {},
            told |-> {},          \* held, and told to die
            dying |-> <<>>, single |-> 0, extra |-> {}, pend |-> <<>>]
  IN Run([t EXCEPT !.tasks = Groups(t) \o <<End("boot")>>])

Found(t, l) ==
  IF l.who = 0 THEN (IF t.single = 0 THEN "-" ELSE P(t.single))
  ELSE LET at == {x \in Holder(t, l.who) : t.ents[x[1]].server}
       IN IF \E x \in at : t.ents[x[1]].inst[x[2]].conn THEN P(l.who)
          ELSE IF at # {} THEN P(l.who) \o "?"
          ELSE IF l.who \in t.extra THEN P(l.who) ELSE "-"
Answered(t, l) == Row(t, <<"found", l.r, l.id, Found(t, l)>>)
Whole(t, l) == LET w == Found(t, l) IN w # "-" /\ (l.who = 0 \/ w = P(l.who))
Pending(t) == [FoldLeft(LAMBDA a, l : IF Whole(t, l) THEN Answered(a, l) ELSE a, t, t.pend) EXCEPT !.pend = SelectSeq(@, LAMBDA l : ~Whole(t, l))]

(* x: as the singleton. Those that are denied exit *)
Connect(t, p, x) ==
  LET at == Holder(t, p)
      k == (CHOOSE y \in at : TRUE)[1]
      n == (CHOOSE y \in at : TRUE)[2]
  IN IF t.lvl = "shutdown" THEN Exit(Row(t, <<"connected", P(p), "0">>), p)
     ELSE IF x /\ t.single # 0
     THEN Exit(Row(IF at = {} THEN t ELSE [t EXCEPT !.ents[k].inst = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))], <<"connected", P(p), "0">>), p)
     ELSE LET m == IF x THEN [t EXCEPT !.single = p] ELSE t
          IN Row(RestartConnect(Pending(IF at # {} /\ t.ents[k].server THEN [m EXCEPT !.ents[k].inst[n].conn = TRUE] ELSE [m EXCEPT !.extra = @ \cup {p}])),
                 <<"connected", P(p), "1">>)

Shutdown(t) ==
  LET z == [t EXCEPT !.lvl = "shutdown", !.ents = [k \in DOMAIN @ |-> Scale(@[k], 0)]]
  IN [z EXCEPT !.tasks = Reverse(Groups(z)) \o <<End("shutdown")>>]

(* w: connect p x, kill p, hold p, release p, scale id to, restart id ents, lookup id r p direct, shutdown *)
After(s, w) ==
  LET t == [s EXCEPT !.rows = <<>>]
  IN CASE w[1] = "connect" -> Run(Connect(t, w[2], w[3]))
       [] w[1] = "kill" -> Run(Exit(t, w[2]))
       [] w[1] = "hold" -> {[t EXCEPT !.held = @ \cup {w[2]}]}
       [] w[1] = "release" -> (LET r == [t EXCEPT !.held = @ \ {w[2]}] IN IF w[2] \in t.told THEN Run(Die(r, w[2])) ELSE {r})
       [] w[1] = "scale" -> (IF t.lvl = "shutdown" THEN {Row(t, <<"accepted", w[2], "OK">>)} ELSE Run(Row([t EXCEPT !.tasks = @ \o <<Task(Indexes(t.ents, LAMBDA k : \E c \in w[3] : c[1] = k), w[3]), End(w[2])>>],
                                    <<"accepted", w[2], "OK">>)))
       [] w[1] = "restart" -> (IF t.lvl = "shutdown" THEN {Row(t, <<"accepted", w[2], "OK">>)}
                               ELSE Run(Row([t EXCEPT !.tasks = @ \o <<Restart(Indexes(t.ents, LAMBDA k : k \in w[3])), End(w[2])>>], <<"accepted", w[2], "OK">>)))
       [] w[1] = "lookup" -> (LET l == [id |-> w[2], r |-> w[3], who |-> w[4]]
                              IN IF Whole(t, l) \/ w[5] \/ t.lvl = "shutdown" THEN {Answered(t, l)} ELSE {[t EXCEPT !.pend = Append(@, l)]})
       [] w[1] = "shutdown" -> Run(Shutdown(t))

TypeInv(t) ==
  /\ \A k \in DOMAIN t.ents : \A i, j \in DOMAIN t.ents[k].inst : i # j => (t.ents[k].inst[i].p = 0 \/ t.ents[k].inst[i].p # t.ents[k].inst[j].p)
  /\ \A k \in DOMAIN t.ents : \A i \in Range(t.ents[k].inst) : i.p # 0 => i.p \in t.up
  /\ t.held \subseteq t.up /\ t.told \subseteq t.held /\ t.dying = <<>>
=============================================================================
