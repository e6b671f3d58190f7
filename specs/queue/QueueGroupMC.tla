---------------------------- MODULE QueueGroupMC ----------------------------
(* The queue group as a state machine with clients, blocking dequeues, time   *)
(* and crashes; checked exhaustively for small constants, and simulated to    *)
(* generate operation sequences for the real process.                         *)
EXTENDS QueueGroup

CONSTANTS Base, Retry, Delay, MaxMsg, Trans, Props, MaxWait, MaxTime, MaxSteps
MCRetry == ( 2 :> 1) @@ ( 4 :> 0)
MCDelay == ( 2 :> 1) @@ ( 4 :> 0)

VARIABLES g,          \* current state
          cur,        \* accounted size
          wait,       \* waiting dequeues: waiter -> [q,t,sp,si]
          inv,        \* transactions reported to the transaction manager
          disk,       \* set of states a crash may leave
          now, next, nextw, steps,
          out,        \* auxiliary: id -> history of visible effects
          acked       \* auxiliary: messages that must survive (acknowledged outside of a transaction, or committed)

vars == << g, cur, wait, inv, disk, now, next, nextw, steps, out, acked>>

Cfg == [ q \in Base |-> [retry |-> Retry[q], delay |-> Delay[q]]]
AllQ == Queues(Configure(EmptyGroup, Cfg))

Init ==
   /\ g = Configure(EmptyGroup, Cfg) /\ cur = 0 /\ wait = <<>> /\ inv = {}
   /\ disk = {Configure(EmptyGroup, Cfg)}
   /\ now = 1 /\ next = 1 /\ nextw = 1 /\ steps = 0 /\ out = <<>> /\ acked = {}

Step == steps' = steps + 1 /\ steps < MaxSteps

(* after a reply that is held until the state is stored *)
Stored1 == disk' = {g'}
(* a reply that is not held: both the old and the new state can be what is left *)
Loose == disk' = disk \cup {g'}

DoEnqueue(q, t, p, d) ==
   /\ Step /\ next <= MaxMsg
   /\ g' = Enqueue(g, q, next, t, p, IF d = 0 THEN 0 ELSE now + d, next)
   /\ cur' = cur + next
   /\ inv' = IF t = NoTrans THEN inv ELSE inv \cup {t}
   /\ IF t = NoTrans THEN Stored1 /\ acked' = acked \cup {next} ELSE Loose /\ acked' = acked
   /\ out' = (next :> 0) @@ out
   /\ next' = next + 1
   /\ UNCHANGED << wait, now, nextw>>

Deliver(q, t, m) ==
   /\ g' = Take(g, m, t)
   /\ cur' = IF t = NoTrans THEN cur - g.msgs[m].sz ELSE cur
   /\ inv' = IF t = NoTrans THEN inv ELSE inv \cup {t}
   /\ out' = IF t = NoTrans THEN [out EXCEPT ![m] = @ + 1] ELSE out
   /\ acked' = IF t = NoTrans THEN acked \ {m} ELSE acked
   /\ Loose

DoDequeue(q, t, sp, si, block) ==
   /\ Step
   /\ \/ \E m \in Candidates(g, q, sp, si, now, now) :
           Deliver(q, t, m) /\ UNCHANGED wait
      \/ /\ MayBeEmpty(g, q, sp, si, now)
         /\ wait' = IF block THEN (nextw :> [q |-> q, t |-> t, sp |-> sp, si |-> si]) @@ wait ELSE wait
         /\ UNCHANGED << g, cur, inv, disk, out, acked>>
   /\ nextw' = IF block THEN nextw + 1 ELSE nextw
   /\ (block => nextw <= MaxWait)
   /\ UNCHANGED << now, next>>

Wake(w) ==
   /\ w \in DOMAIN wait
   /\ \E m \in Candidates(g, wait[w].q, wait[w].sp, wait[w].si, now, now) : Deliver(wait[w].q, wait[w].t, m)
   /\ wait' = Restrict(wait, DOMAIN wait \ {w})
   /\ UNCHANGED << now, next, nextw, steps>>

DoForget(w) == Step /\ w \in DOMAIN wait /\ wait' = Restrict(wait, DOMAIN wait \ {w})
               /\ UNCHANGED << g, cur, inv, disk, now, next, nextw, out, acked>>

DoPrepare(t) == Step /\ UNCHANGED << g, cur, wait, inv, now, next, nextw, out, acked>> /\ Stored1

DoCommit(t) ==
   /\ Step
   /\ g' = Commit(g, Global(t))
   /\ cur' = Remaining(cur, g, Of(g, Global(t), Dequeued))
   /\ inv' = inv \ {t}
   /\ out' = [ m \in DOMAIN out |-> IF m \in Of(g, Global(t), Dequeued) THEN out[m] + 1 ELSE out[m]]
   /\ acked' = (acked \cup Of(g, Global(t), Added)) \ Of(g, Global(t), Dequeued)
   /\ Stored1
   /\ UNCHANGED << wait, now, next, nextw>>

DoRollback(t) ==
   /\ Step
   /\ g' = Rollback(g, Global(t), now, now)
   /\ cur' = Remaining(cur, g, Of(g, Global(t), Added))
   /\ inv' = inv \ {t}
   /\ Stored1
   /\ UNCHANGED << wait, now, next, nextw, out, acked>>

DoRestore(q) == Step /\ g' = Restore(g, q) /\ Stored1 /\ UNCHANGED << cur, wait, inv, now, next, nextw, out, acked>>
DoClear(q) == Step /\ g' = Clear(g, q) /\ Loose /\ cur' = Stored(g')
              /\ acked' = acked \ Clearable(g, q)
              /\ UNCHANGED << wait, inv, now, next, nextw, out>>

Crash ==
   /\ Step
   /\ \E d \in disk : g' = d /\ cur' = Stored(d) /\ disk' = {d}
                      \* a dequeue outside of a transaction that was not stored is done again
                      /\ out' = [ m \in DOMAIN out |-> IF m \in Ids(d) THEN 0 ELSE out[m]]
                      /\ acked' = acked \cup { m \in Ids(d) : d.msgs[m].st # Added}
   /\ wait' = <<>> /\ inv' = {}
   /\ UNCHANGED << now, next, nextw>>

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED << g, cur, wait, inv, disk, next, nextw, steps, out, acked>>

Woken == \A w \in DOMAIN wait : MayBeEmpty(g, wait[w].q, wait[w].sp, wait[w].si, now)

Next ==
   \/ \E w \in DOMAIN wait : Wake(w)
   \/ /\ Woken     \* the group serves waiters before it takes the next request
      /\ \/ \E q \in Base, t \in Trans \cup {NoTrans}, p \in Props, d \in {0, 1} : DoEnqueue(q, t, p, d)
         \/ \E q \in AllQ, t \in Trans \cup {NoTrans}, sp \in Props, b \in BOOLEAN : DoDequeue(q, t, sp, 0, b)
         \/ \E w \in DOMAIN wait : DoForget(w)
         \/ \E t \in Trans : DoPrepare(t) \/ DoCommit(t) \/ DoRollback(t)
         \/ \E q \in Base : DoRestore(q) \/ DoClear(q)
         \/ Crash
         \/ Tick

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties -- *)

TypeOK == \A m \in Ids(g) : /\ g.msgs[m].q \in AllQ /\ g.msgs[m].st \in 1..3
                            /\ (g.msgs[m].st # Enqueued => g.msgs[m].t # 0)
(* a message is consumed at most once, and what is consumed is gone *)
ExactlyOnce == \A m \in DOMAIN out : out[m] <= 1 /\ (out[m] = 1 => m \notin Ids(g))
(* what was acknowledged is present, unless consumed or administratively removed *)
NothingLost == \A m \in acked : m \in Ids(g)
(* ... and it is present in everything a crash may leave *)
Durable == \A m \in acked : \A d \in disk : m \in Ids(d)
(* a message that is given back to a base queue has not been delivered more often than its retry count *)
Bounded == [][ \A m \in DOMAIN g.msgs : (/\ m \in DOMAIN g'.msgs /\ g.msgs[m].st = Dequeued /\ g'.msgs[m].st = Enqueued
                                        /\ IsBase(g'.msgs[m].q) /\ g'.msgs[m].rd > g.msgs[m].rd)
                                      => g'.msgs[m].rd <= g.cfg[g.msgs[m].q].retry ]_vars
(* a message is in its origin or the error queue of its origin *)
Home == \A m \in Ids(g) : g.msgs[m].q \in {g.msgs[m].o, g.msgs[m].o - 1}
Accounting == cur = Stored(g)
Counters == \A q \in AllQ : g.enq[q] - g.deq[q] = Count(g, q)
(* uncommitted work belongs to a transaction the manager knows (outside of crash recovery) *)
Known == \A m \in Ids(g) : (g.msgs[m].st # Enqueued /\ \A d \in disk : m \notin Ids(d) \/ d.msgs[m] # g.msgs[m]) => \E t \in inv : Global(t) = g.msgs[m].t

Isolation == [][ \A m \in DOMAIN g.msgs : m \in DOMAIN g'.msgs /\ g.msgs[m].st = Added /\ g'.msgs[m].st = Dequeued => FALSE ]_vars
=============================================================================
