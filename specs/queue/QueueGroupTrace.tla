--------------------------- MODULE QueueGroupTrace ---------------------------
(* Recorded executions of the real queue group checked against QueueGroup.    *)
(* The file holds a sequence of executions, each a sequence of events.        *)
EXTENDS QueueGroup, Json, IOUtils, TLCExt

CONSTANTS Aspects,     \* what the projections are compared on
          Crashes      \* executions have crashes (keeps the states a crash may leave)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, g, cur, cap, inv, wait, disk, sent

vars == << tid, l, g, cur, cap, inv, wait, disk, sent>>

Ev == Traces[tid][l]
Set(s) == { s[i] : i \in DOMAIN s}

IsEvent(e) == l <= Len(Traces[tid]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

Margin == 700     \* ms a timer may be late

(* --- durability: the states a crash can leave, oldest first *)
Loose == disk' = IF ~Crashes \/ g' = g THEN disk ELSE Append(disk, [n |-> 0, g |-> g'])
Held  == disk' = IF ~Crashes THEN disk ELSE << [n |-> 0, g |-> g'] >>

(* --- the transaction manager knows about `t` when the requester gets to know the outcome *)
Told(t) == /\ Set(Ev.inv) \subseteq {t}
           /\ (t # NoTrans => t \in inv \cup Set(Ev.inv))
           /\ inv' = inv \cup (Set(Ev.inv) \ {NoTrans})
NotTold == Set(Ev.inv) = {} /\ inv' = inv

Init ==
   /\ tid \in 1..Len(Traces) /\ l = 1
   /\ g = EmptyGroup /\ cur = 0 /\ cap = -1 /\ inv = {} /\ wait = <<>> /\ disk = <<>> /\ sent = <<>>

Cfg(qs) == [ q \in { qs[i].q : i \in DOMAIN qs} |-> LET i == CHOOSE i \in DOMAIN qs : qs[i].q = q IN [retry |-> qs[i].retry, delay |-> qs[i].delay]]

TBoot == IsEvent("boot") /\ UNCHANGED << g, cur, cap, inv, wait, disk, sent>>

Gone(c) == { q \in Queues(g) : IsBase(q) /\ q \notin DOMAIN c}
TConfig ==
   /\ IsEvent("config")
   /\ LET c == Cfg(Ev.qs) IN
      /\ g' = Configure(g, c)
      /\ Set(Ev.replied) = DOMAIN c \cup { q - 1 : q \in DOMAIN c}
   /\ cap' = Ev.cap
   /\ cur' = Stored(g') /\ ("size" \in Aspects => Ev.cur = cur')
   /\ Held /\ NotTold /\ UNCHANGED << wait, sent>>

TRestart ==
   /\ IsEvent("restart")
   /\ LET c == Cfg(Ev.qs) IN
      /\ g' = Configure(g, c)
      /\ Set(Ev.replied) = DOMAIN c \cup { q - 1 : q \in DOMAIN c}
   /\ cap' = Ev.cap
   /\ cur' = Stored(g') /\ ("size" \in Aspects => Ev.cur = cur')
   /\ disk' = << [n |-> 0, g |-> g'] >>
   /\ inv' = {} /\ wait' = <<>> /\ UNCHANGED sent

Fits(sz) == cap < 0 \/ cap - cur >= sz

TEnqueue ==
   /\ IsEvent("enq")
   /\ IF Ev.q \in Queues(g) /\ Fits(Ev.sz)
      THEN /\ Ev.code = "ok" /\ Ev.rid = Ev.m
           /\ g' = Enqueue(g, Ev.q, Ev.m, Ev.t, Ev.p, Ev.a, Ev.sz)
           /\ cur' = cur + Ev.sz
           /\ Told(Ev.t)
           /\ IF Ev.t = NoTrans THEN Held ELSE Loose
      ELSE /\ Ev.code = "no_queue" /\ UNCHANGED << g, cur, disk>> /\ NotTold
   /\ UNCHANGED << cap, wait, sent>>

Same(m) == /\ Ev.rd = g.msgs[m].rd /\ Ev.p = g.msgs[m].p /\ Ev.sz = g.msgs[m].sz /\ Ev.ok
           /\ Ev.rq = "reply" \o ToString(m)

Got(q, t, sp, si) ==
   /\ Ev.res = "msg" /\ Ev.code = "ok"
   /\ Ev.m \in Candidates(g, q, sp, si, Ev.t0, Ev.t1)
   /\ Same(Ev.m)
   /\ g' = Take(g, Ev.m, t)
   /\ cur' = IF t = NoTrans THEN cur - g.msgs[Ev.m].sz ELSE cur
   /\ Told(t) /\ Loose

TDequeue ==
   /\ IsEvent("deq")
   /\ IF Ev.q \notin Queues(g)
      THEN Ev.code = "no_queue" /\ UNCHANGED << g, cur, wait, disk>> /\ NotTold
      ELSE \/ Got(Ev.q, Ev.t, Ev.sp, Ev.si) /\ UNCHANGED wait
           \/ /\ MayBeEmpty(g, Ev.q, Ev.sp, Ev.si, Ev.t0)
              /\ IF Ev.b
                 THEN /\ Ev.res = "wait"
                      /\ wait' = (Ev.w :> [q |-> Ev.q, t |-> Ev.t, sp |-> Ev.sp, si |-> Ev.si, c |-> Ev.c]) @@ wait
                 ELSE Ev.res = "none" /\ Ev.code = "no_message" /\ UNCHANGED wait
              /\ UNCHANGED << g, cur, disk>> /\ NotTold
   /\ UNCHANGED << cap, sent>>

(* a waiting dequeue is served *)
TDeliver ==
   /\ IsEvent("del")
   /\ Ev.w \in DOMAIN wait
   /\ LET w == wait[Ev.w] IN Got(w.q, w.t, w.sp, w.si)
   /\ wait' = Restrict(wait, DOMAIN wait \ {Ev.w})
   /\ UNCHANGED << cap, sent>>

TForget ==
   /\ IsEvent("forget")
   /\ Ev.discarded = (Ev.w \in DOMAIN wait)
   /\ wait' = Restrict(wait, DOMAIN wait \ {Ev.w})
   /\ NotTold /\ UNCHANGED << g, cur, cap, disk, sent>>

TPrepare ==
   /\ IsEvent("prepare") /\ Ev.ok /\ Ev.same
   /\ UNCHANGED g /\ Held
   /\ NotTold /\ UNCHANGED << cur, cap, wait, sent>>

TCommit ==
   /\ IsEvent("commit") /\ Ev.ok /\ Ev.same
   /\ g' = Commit(g, Global(Ev.t))
   /\ cur' = Remaining(cur, g, Of(g, Global(Ev.t), Dequeued))
   /\ Set(Ev.inv) = {} /\ inv' = inv \ {Ev.t}
   /\ Held /\ UNCHANGED << cap, wait, sent>>

TRollback ==
   /\ IsEvent("rollback") /\ Ev.ok /\ Ev.same
   /\ g' = Rollback(g, Global(Ev.t), Ev.t0, Ev.t1)
   /\ cur' = Remaining(cur, g, Of(g, Global(Ev.t), Added))
   /\ Set(Ev.inv) = {} /\ inv' = inv \ {Ev.t}
   /\ Held /\ UNCHANGED << cap, wait, sent>>

RECURSIVE RestoreAll(_, _), ClearAll(_, _), RecoverAll(_, _, _, _, _)
RestoreAll(h, qs) == IF qs = <<>> THEN h ELSE RestoreAll(Restore(h, Head(qs)), Tail(qs))
ClearAll(h, qs) == IF qs = <<>> THEN h ELSE ClearAll(Clear(h, Head(qs)), Tail(qs))
RecoverAll(h, gs, d, t0, t1) ==
   IF gs = <<>> THEN h
   ELSE RecoverAll(IF d = "commit" THEN Commit(h, Head(gs)) ELSE Rollback(h, Head(gs), t0, t1), Tail(gs), d, t0, t1)

QName(q) == IF IsBase(q) THEN "q" \o ToString(q \div 2) ELSE "q" \o ToString((q + 1) \div 2) \o ".error"

TRestore ==
   /\ IsEvent("restore")
   /\ g' = RestoreAll(g, Ev.qs)
   /\ Len(Ev.affected) = Len(Ev.qs)
   /\ \A i \in DOMAIN Ev.qs : /\ Ev.affected[i].q = Ev.qs[i] /\ Ev.affected[i].name = QName(Ev.qs[i])
                              /\ Ev.affected[i].n = Cardinality(Restorable(RestoreAll(g, SubSeq(Ev.qs, 1, i - 1)), Ev.qs[i]))
   /\ Held /\ NotTold /\ UNCHANGED << cur, cap, wait, sent>>

TClear ==
   /\ IsEvent("clear")
   /\ g' = ClearAll(g, Ev.qs)
   /\ Len(Ev.affected) = Len(Ev.qs)
   /\ \A i \in DOMAIN Ev.qs : /\ Ev.affected[i].q = Ev.qs[i] /\ Ev.affected[i].name = QName(Ev.qs[i])
                              /\ Ev.affected[i].n = Cardinality(Clearable(ClearAll(g, SubSeq(Ev.qs, 1, i - 1)), Ev.qs[i]))
   /\ cur' = Stored(g')
   /\ Loose /\ NotTold /\ UNCHANGED << cap, wait, sent>>

TRemove ==
   /\ IsEvent("remove")
   /\ LET S == Removable(g, Ev.q, Ev.force, Set(Ev.ms)) IN
      /\ Set(Ev.removed) = S /\ Len(Ev.removed) = Cardinality(S)
      /\ g' = Delete(g, S)
   /\ cur' = Stored(g')
   /\ Loose /\ NotTold /\ UNCHANGED << cap, wait, sent>>

TRecover ==
   /\ IsEvent("recover")
   /\ Set(Ev.done) = { x \in Set(Ev.gs) : Pending(g, x) # {}} /\ Len(Ev.done) = Cardinality(Set(Ev.done))
   /\ g' = RecoverAll(g, Ev.gs, Ev.d, Ev.t0, Ev.t1)
   /\ cur' = Stored(g') + (cur - Stored(g))
   /\ Loose /\ NotTold /\ UNCHANGED << cap, wait, sent>>

TReset ==
   /\ IsEvent("reset")
   /\ g' = ResetMetric(g, Set(Ev.qs))
   /\ Loose /\ NotTold /\ UNCHANGED << cur, cap, wait, sent>>

TPeek ==
   /\ IsEvent("peek")
   /\ LET want == SelectSeq(Ev.ms, LAMBDA m : m \in Ids(g)) IN
      /\ Len(Ev.got) = Len(want)
      /\ \A i \in DOMAIN want : LET x == g.msgs[want[i]] IN
            Ev.got[i].m = want[i] /\ Ev.got[i].rd = x.rd /\ Ev.got[i].p = x.p /\ Ev.got[i].sz = x.sz /\ Ev.got[i].ok
   /\ NotTold /\ UNCHANGED << g, cur, cap, wait, disk, sent>>

TMetaPeek ==
   /\ IsEvent("mpeek")
   /\ Set(Ev.got) = { m \in In(g, Ev.q) : Ev.sp = 0 \/ g.msgs[m].p = Ev.sp} /\ Len(Ev.got) = Cardinality(Set(Ev.got))
   /\ NotTold /\ UNCHANGED << g, cur, cap, wait, disk, sent>>

(* browse visits the visible messages in order, nothing else *)
TBrowse ==
   /\ IsEvent("browse")
   /\ LET vis(P(_)) == { m \in In(g, Ev.q) : g.msgs[m].st = Enqueued /\ P(g.msgs[m])} IN
      /\ Set(Ev.got) \subseteq vis(LAMBDA x : CanAvailable(x, Ev.t1))
      /\ vis(LAMBDA x : MustAvailable(x, Ev.t0)) \subseteq Set(Ev.got)
      /\ \A i, j \in DOMAIN Ev.got : i < j => g.msgs[Ev.got[i]].seq < g.msgs[Ev.got[j]].seq
   /\ NotTold /\ UNCHANGED << g, cur, cap, wait, disk, sent>>

TExit ==
   /\ IsEvent("exit")
   /\ wait' = Restrict(wait, { w \in DOMAIN wait : wait[w].c # Ev.c})
   /\ NotTold /\ UNCHANGED << g, cur, cap, disk, sent>>

(* --- bursts: requests that are sent without waiting *)
TSend ==
   /\ IsEvent("send")
   /\ LET after ==
          CASE Ev.op = "enq" -> Enqueue(g, Ev.q, Ev.m, Ev.t, Ev.p, Ev.a, Ev.sz)
            [] Ev.op = "deq" -> LET C == Candidates(g, Ev.q, Ev.sp, Ev.si, Ev.t0, Ev.t1) IN
                                IF C = {} THEN g ELSE Take(g, CHOOSE m \in C : TRUE, Ev.t)
            [] Ev.op = "commit" -> Commit(g, Global(Ev.t))
            [] Ev.op = "rollback" -> Rollback(g, Global(Ev.t), Ev.t0, Ev.t1)
            [] Ev.op = "prepare" -> g
          got == IF Ev.op # "deq" THEN 0
                 ELSE LET C == Candidates(g, Ev.q, Ev.sp, Ev.si, Ev.t0, Ev.t1) IN IF C = {} THEN 0 ELSE CHOOSE m \in C : TRUE
          held == Ev.op \in {"commit", "rollback", "prepare"} \/ (Ev.op = "enq" /\ Ev.t = NoTrans)
      IN /\ g' = after
         /\ disk' = Append(disk, [n |-> Ev.n, g |-> after])
         /\ sent' = (Ev.n :> [held |-> held, m |-> got, op |-> Ev.op]) @@ sent
   /\ cur' = Stored(g')
   /\ inv' = inv \cup Set(Ev.inv)
   /\ UNCHANGED << cap, wait>>

Upto(n) == CHOOSE i \in DOMAIN disk : disk[i].n = n

TAck ==
   /\ IsEvent("ack")
   /\ Ev.n \in DOMAIN sent
   /\ LET s == sent[Ev.n] IN
      /\ Ev.code = (IF s.op = "deq" /\ s.m = 0 THEN "no_message" ELSE "ok")
      /\ (s.op = "deq" => Ev.m = s.m)
      \* an answer that waits for the state to be stored
      /\ disk' = IF s.held /\ \E i \in DOMAIN disk : disk[i].n = Ev.n THEN SubSeq(disk, Upto(Ev.n), Len(disk)) ELSE disk
   /\ sent' = Restrict(sent, DOMAIN sent \ {Ev.n})
   /\ inv' = inv \cup Set(Ev.inv)
   /\ UNCHANGED << g, cur, cap, wait>>

TFlush == IsEvent("flush") /\ sent = <<>> /\ UNCHANGED << g, cur, cap, inv, wait, disk, sent>>

TCrash ==
   /\ IsEvent("crash")
   /\ \E i \in DOMAIN disk : g' = disk[i].g
   /\ cur' = Stored(g') /\ disk' = << [n |-> 0, g |-> g'] >>
   /\ wait' = <<>> /\ inv' = {} /\ sent' = <<>> /\ UNCHANGED cap

TForgotten ==
   /\ IsEvent("forgotten")
   /\ Ev.w \in DOMAIN wait
   /\ wait' = Restrict(wait, DOMAIN wait \ {Ev.w})
   /\ UNCHANGED << g, cur, cap, inv, disk, sent>>

(* orderly: waiting dequeues are given up; ends when no transaction is outstanding, and everything is stored then *)
TShutdown ==
   /\ IsEvent("shutdown")
   /\ wait = <<>>
   /\ Ev.down = (inv = {})
   /\ disk' = IF Ev.down \/ ~Crashes THEN << [n |-> 0, g |-> g] >> ELSE disk
   /\ UNCHANGED << g, cur, cap, inv, wait, sent>>

QuietQueue(q, e) ==
   LET x == g.msgs
       ms == { e.ms[i].m : i \in DOMAIN e.ms}
       row(m) == e.ms[CHOOSE i \in DOMAIN e.ms : e.ms[i].m = m]
   IN /\ Len(e.ms) = Cardinality(ms)
      /\ ms = In(g, q)
      /\ \A m \in ms : LET r == row(m) IN
           /\ r.st = x[m].st /\ r.p = x[m].p /\ r.sz = x[m].sz /\ r.o = x[m].o
           /\ (x[m].st # Enqueued => r.t = x[m].t)
           /\ ("retry" \in Aspects => /\ r.rd = x[m].rd
                                      /\ IF x[m].hi = 0 THEN r.a = 0 ELSE x[m].lo - Slop <= r.a /\ r.a <= x[m].hi + Slop)
      /\ ("count" \in Aspects => /\ e.count = Count(g, q) /\ e.unc = Uncommitted(g, q) /\ e.size = Size(g, q)
                                 /\ e.enq = g.enq[q] /\ e.deq = g.deq[q])
      /\ e.retry = g.cfg[q].retry /\ e.delay = g.cfg[q].delay /\ e.err = IF IsBase(q) THEN q - 1 ELSE 0

(* nobody waits for something that is there *)
Served(t0) == \A w \in DOMAIN wait : LET x == wait[w] IN
   ~ \E m \in Ids(g) : Matches(g, x.q, x.sp, x.si, m) /\ (x.si # 0 \/ g.msgs[m].hi = 0 \/ g.msgs[m].hi + Margin < t0)

TQuiet ==
   /\ IsEvent("quiet")
   /\ { Ev.qs[i].q : i \in DOMAIN Ev.qs} = Queues(g) /\ Len(Ev.qs) = Cardinality(Queues(g))
   /\ \A i \in DOMAIN Ev.qs : QuietQueue(Ev.qs[i].q, Ev.qs[i])
   /\ ("size" \in Aspects => Ev.cur = cur)
   /\ Served(Ev.t0)
   /\ NotTold
   /\ UNCHANGED << g, cur, cap, wait, disk, sent>>

(* time has passed, nothing else happened *)
TSlept == IsEvent("slept") /\ Served(Ev.t0) /\ NotTold /\ UNCHANGED << g, cur, cap, wait, disk, sent>>

TEnd == IsEvent("end") /\ UNCHANGED << g, cur, cap, inv, wait, disk, sent>>

Next == \/ TBoot \/ TConfig \/ TRestart \/ TEnqueue \/ TDequeue \/ TDeliver \/ TForget \/ TPrepare \/ TCommit \/ TRollback
        \/ TRestore \/ TClear \/ TRemove \/ TRecover \/ TReset \/ TPeek \/ TMetaPeek \/ TBrowse \/ TExit \/ TSend \/ TAck
        \/ TFlush \/ TCrash \/ TForgotten \/ TShutdown \/ TQuiet \/ TSlept \/ TEnd

Spec == Init /\ [][Next]_vars

(* what the executions must satisfy on top of being allowed *)
Home == \A m \in Ids(g) : g.msgs[m].q \in {g.msgs[m].o, g.msgs[m].o - 1}

Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
