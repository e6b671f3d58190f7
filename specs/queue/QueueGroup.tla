------------------------------ MODULE QueueGroup ------------------------------
(* State and transitions of one queue group (casual-queue-group).            *)
(*                                                                           *)
(* The group is one process that handles one request at a time, so a         *)
(* transition is one request.  The persistent part of the state is the       *)
(* record `g`; operators compute its successor.  The actions below combine   *)
(* them with the volatile part (waiters, involved transactions, the set of   *)
(* states a crash can leave behind).                                         *)
(*                                                                           *)
(* Queues: base queue 2k has the error queue 2k-1.                           *)
(* Transactions: t = 10 * (global transaction) + branch; 0 is `none`.        *)
(* Time: a request is handled some time in [t0,t1] (ms).  When a message     *)
(* gets available is known as an interval [lo,hi] too; lo = hi = 0 is        *)
(* `always`.                                                                 *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANT Slop        \* ms, accuracy of the timestamps of the implementation

NoTrans == 0
Global(t) == t \div 10
IsBase(q) == q % 2 = 0

Added == 1
Enqueued == 2
Dequeued == 3

(* ---------------------------------------------------------------- state -- *)

EmptyGroup == [ msgs |-> <<>>, cfg |-> <<>>, enq |-> <<>>, deq |-> <<>>, seq |-> 0]

Ids(g) == DOMAIN g.msgs
In(g, q) == { m \in Ids(g) : g.msgs[m].q = q}
Queues(g) == DOMAIN g.cfg

Restrict(f, S) == [ x \in S |-> f[x]]
RECURSIVE SumSz(_, _)
SumSz(g, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN g.msgs[m].sz + SumSz(g, S \ {m})

Count(g, q)  == Cardinality({ m \in In(g, q) : g.msgs[m].st \in {Enqueued, Dequeued}})
Uncommitted(g, q) == Cardinality({ m \in In(g, q) : g.msgs[m].st = Added})
Size(g, q)   == SumSz(g, { m \in In(g, q) : g.msgs[m].st \in {Enqueued, Dequeued}})
Stored(g)    == SumSz(g, Ids(g))

Bump(f, g, S, q) == f[q] + Cardinality({ m \in S : g.msgs[m].q = q})

(* remove messages S; those that are visible count as dequeued *)
Delete(g, S) ==
   LET seen == { m \in S : g.msgs[m].st \in {Enqueued, Dequeued}} IN
   [g EXCEPT !.msgs = Restrict(g.msgs, Ids(g) \ S),
             !.deq = [ q \in Queues(g) |-> Bump(g.deq, g, seen, q)]]

(* move messages S to the queue To(m) *)
MoveTo(g, S, To(_)) ==
   [g EXCEPT !.msgs = [ m \in Ids(g) |-> IF m \in S THEN [g.msgs[m] EXCEPT !.q = To(m)] ELSE g.msgs[m]],
             !.deq = [ q \in Queues(g) |-> Bump(g.deq, g, S, q)],
             !.enq = [ q \in Queues(g) |-> g.enq[q] + Cardinality({ m \in S : To(m) = q})]]

(* ----------------------------------------------------------- transitions -- *)

(* the configured queues become `c` (a function from base queues);  removed queues with messages stay *)
Configure(g, c) ==
   LET pairEmpty(q) == In(g, q) \cup In(g, q - 1) = {}
       gone == { q \in Queues(g) : IsBase(q) /\ q \notin DOMAIN c /\ pairEmpty(q)}
       base == (DOMAIN c \cup { q \in Queues(g) : IsBase(q)}) \ gone
       all  == base \cup { q - 1 : q \in base}
       kept == { m \in Ids(g) : g.msgs[m].q \in all}
   IN [ msgs |-> Restrict(g.msgs, kept),
        cfg |-> [ q \in all |-> IF ~IsBase(q) THEN [retry |-> 0, delay |-> 0]
                                ELSE IF q \in DOMAIN c THEN c[q] ELSE g.cfg[q]],
        enq |-> [ q \in all |-> IF q \in Queues(g) THEN g.enq[q] ELSE 0],
        deq |-> [ q \in all |-> IF q \in Queues(g) THEN g.deq[q] ELSE 0],
        seq |-> g.seq]

Enqueue(g, q, m, t, p, a, sz) ==
   [g EXCEPT !.msgs = ( m :> [ q |-> q, o |-> q, st |-> IF t = NoTrans THEN Enqueued ELSE Added, t |-> Global(t),
                               p |-> p, rd |-> 0, sz |-> sz, lo |-> a, hi |-> a, seq |-> g.seq + 1]) @@ g.msgs,
             !.seq = g.seq + 1,
             !.enq = IF t = NoTrans THEN [g.enq EXCEPT ![q] = @ + 1] ELSE g.enq]

CanAvailable(x, t1)  == x.lo = 0 \/ x.lo - Slop <= t1
MustAvailable(x, t0) == x.hi = 0 \/ x.hi + Slop < t0

Matches(g, q, sp, si, m) ==
   LET x == g.msgs[m] IN
   /\ x.q = q /\ x.st = Enqueued
   /\ (si # 0 => m = si)
   /\ (si = 0 /\ sp # 0 => x.p = sp)

(* messages a dequeue handled in [t0,t1] may get; a selected id disregards availability *)
Candidates(g, q, sp, si, t0, t1) ==
   LET match == { m \in Ids(g) : Matches(g, q, sp, si, m)}
       can  == { m \in match : si # 0 \/ CanAvailable(g.msgs[m], t1)}
       must == { m \in match : si # 0 \/ MustAvailable(g.msgs[m], t0)}
   IN { m \in can : \A n \in must : g.msgs[m].seq <= g.msgs[n].seq}

MayBeEmpty(g, q, sp, si, t0) ==
   ~ \E m \in Ids(g) : Matches(g, q, sp, si, m) /\ (si # 0 \/ MustAvailable(g.msgs[m], t0))

Take(g, m, t) ==
   IF t = NoTrans THEN Delete(g, {m})
   ELSE [g EXCEPT !.msgs[m] = [@ EXCEPT !.st = Dequeued, !.t = Global(t)]]

Of(g, gt, st) == { m \in Ids(g) : g.msgs[m].t = gt /\ g.msgs[m].st = st}

Commit(g, gt) ==
   LET add == Of(g, gt, Added)
       h == [g EXCEPT !.msgs = [ m \in Ids(g) |-> IF m \in add THEN [g.msgs[m] EXCEPT !.st = Enqueued] ELSE g.msgs[m]],
                      !.enq = [ q \in Queues(g) |-> Bump(g.enq, g, add, q)]]
   IN Delete(h, Of(g, gt, Dequeued))

Rollback(g, gt, t0, t1) ==
   LET back == Of(g, gt, Dequeued)
       h == Delete(g, Of(g, gt, Added))
       again(m) == LET x == h.msgs[m]  d == h.cfg[x.q].delay IN
                   [x EXCEPT !.st = Enqueued, !.rd = x.rd + 1,
                             !.lo = IF d = 0 THEN 0 ELSE t0 + d,
                             !.hi = IF d = 0 THEN 0 ELSE t1 + d]
       i == [h EXCEPT !.msgs = [ m \in Ids(h) |-> IF m \in back THEN again(m) ELSE h.msgs[m]]]
       dead == { m \in back : IsBase(i.msgs[m].q) /\ i.msgs[m].rd > i.cfg[i.msgs[m].q].retry}
       j == MoveTo(i, dead, LAMBDA m : i.msgs[m].q - 1)
   IN [j EXCEPT !.msgs = [ m \in Ids(j) |-> IF m \in dead THEN [j.msgs[m] EXCEPT !.rd = 0, !.lo = 0, !.hi = 0] ELSE j.msgs[m]]]

Restorable(g, q) == { m \in Ids(g) : g.msgs[m].o = q /\ g.msgs[m].q # q /\ g.msgs[m].st = Enqueued}
Restore(g, q) == MoveTo(g, Restorable(g, q), LAMBDA m : q)

Clearable(g, q) == { m \in In(g, q) : g.msgs[m].st = Enqueued}
Clear(g, q) == Delete(g, Clearable(g, q))

Removable(g, q, force, S) == { m \in S \cap Ids(g) : g.msgs[m].q = q /\ (force \/ g.msgs[m].st = Enqueued)}
Remove(g, q, force, S) == Delete(g, Removable(g, q, force, S))

Pending(g, gt) == Of(g, gt, Added) \cup Of(g, gt, Dequeued)

ResetMetric(g, Q) ==
   [g EXCEPT !.enq = [ q \in Queues(g) |-> IF q \in Q THEN 0 ELSE g.enq[q]],
             !.deq = [ q \in Queues(g) |-> IF q \in Q THEN 0 ELSE g.deq[q]]]

(* what is left of a size after the messages in S left *)
Remaining(cur, g, S) == cur - SumSz(g, S)

=============================================================================
