---------------------------- MODULE QueueGroupGen ----------------------------
(* Operation sequences for the real queue group, drawn at random from the     *)
(* behaviours of QueueGroup (used with -simulate).                            *)
EXTENDS QueueGroup, Json

CONSTANTS Base,        \* base queues
          Kinds,       \* sequence of operation kinds, repeated according to weight
          Length,      \* operations in a sequence
          MaxTrans,    \* transactions open at a time
          Again,       \* transactions that are concluded are concluded again now and then
          DelayMs, Branches, Clients, Blocking,
          QuietEvery,
          Capacity,    \* 0: none
          Retries, Delays

VARIABLES g, wait, next, nextw, n, now, cfg, out, burst, done,
          open, last   \* open (global) transactions; last one

vars == << g, wait, next, nextw, n, now, cfg, out, burst, done, open, last>>

S(x) == ToString(x)
Cat(f) == LET RECURSIVE C(_)  C(i) == IF i > Len(f) THEN "" ELSE f[i] \o (IF i = Len(f) THEN "" ELSE " ") \o C(i + 1) IN C(1)

RECURSIVE CfgText(_, _)
CfgText(c, D) == IF D = {} THEN "" ELSE LET q == CHOOSE q \in D : \A r \in D : q <= r IN
   " " \o S(q) \o ":" \o S(c[q].retry) \o ":" \o S(c[q].delay) \o CfgText(c, D \ {q})

CapText == IF Capacity = 0 THEN "-" ELSE S(Capacity)
Line(s) == out' = Append(out, s)
Lines(s) == out' = out \o s

Init ==
   /\ \E f \in {[ q \in Base |-> [retry |-> RandomElement(Retries), delay |-> RandomElement(Delays)]]} : cfg = f
   /\ g = Configure(EmptyGroup, cfg) /\ wait = <<>> /\ next = 1 /\ nextw = 1 /\ n = 0 /\ now = 1000
   /\ out = << "boot " \o CapText \o CfgText(cfg, Base) >> /\ burst = 0 /\ done = FALSE
   /\ open = 1..MaxTrans /\ last = MaxTrans

(* Random draws are bound with \E x \in {draw}: a definition is evaluated again on every use, and one without
   parameters only once, so every draw has a (dummy) parameter. *)
R(i, j) == RandomElement(i..j)
AllQ == Queues(g)
AnyQ(z) == RandomElement(AllQ)
BaseQ(z) == RandomElement(Base \cap AllQ)
SomeQ(z) == IF R(1, 5) = 1 THEN AnyQ(z) ELSE BaseQ(z)        \* mostly base queues
SomeTrans(z) == IF R(1, 10) <= 4 THEN NoTrans
                ELSE 10 * RandomElement(open) + (IF Branches /\ R(1, 4) = 1 THEN 1 ELSE 0)
SomeM(z) == IF next = 1 THEN 1 ELSE R(1, next - 1)
MsgIn(q) == { m \in Ids(g) : g.msgs[m].q = q}
Active == { g.msgs[m].t : m \in { x \in Ids(g) : g.msgs[x].st # Enqueued}}
(* a transaction to conclude: one with work most of the time *)
Conclude(z) == IF Active # {} /\ R(1, 8) # 1 THEN RandomElement(Active) ELSE IF Again /\ R(1, 2) = 1 THEN R(1, last) ELSE RandomElement(open)
(* transactions in S are concluded, they are never used again *)
Concluded(X) == LET k == Cardinality(open \cap X) IN open' = (open \ X) \cup (last + 1 .. last + k) /\ last' = last + k

(* waiters are served right away *)
Can(h, w) == { x \in DOMAIN w : Candidates(h, w[x].q, w[x].sp, w[x].si, now, now) # {}}
RECURSIVE Serve(_, _)
Serve(h, w) ==
   IF Can(h, w) = {} THEN [g |-> h, w |-> w]
   ELSE LET x == CHOOSE x \in Can(h, w) : TRUE
            m == CHOOSE m \in Candidates(h, w[x].q, w[x].sp, w[x].si, now, now) : TRUE
        IN Serve(Take(h, m, w[x].t), Restrict(w, DOMAIN w \ {x}))
Become(h, w) == LET r == Serve(h, w) IN g' = r.g /\ wait' = r.w

GEnq(bang) ==
   \E q \in {SomeQ(0)}, t \in {SomeTrans(0)}, p \in {R(0, 3)}, d \in {IF bang = "" /\ R(1, 4) = 1 THEN DelayMs ELSE 0},
      sz \in {RandomElement({1, 10, 17, 200})}, gen \in {R(1, 6)} :
      /\ Line(Cat(<< bang \o "enq", S(q), S(next), S(t), S(p % 3), S(d), S(sz)>>) \o (IF bang = "" /\ gen = 1 THEN " gen" ELSE ""))
      /\ LET h == Enqueue(g, q, next, t, p % 3, IF d = 0 THEN 0 ELSE now + d, sz) IN
         IF Capacity > 0 /\ Stored(h) > Capacity THEN UNCHANGED << g, wait>> ELSE Become(h, wait)
      /\ next' = next + 1 /\ UNCHANGED nextw

GDeq(bang) ==
   \E q \in {IF R(1, 3) = 1 \/ Ids(g) = {} THEN SomeQ(0) ELSE g.msgs[RandomElement(Ids(g))].q},
      t \in {IF bang = "" THEN SomeTrans(0) ELSE 10 * RandomElement(open)},
      r \in {IF bang = "" THEN R(1, 8) ELSE 8}, bb \in {R(1, 2)}, c \in {R(1, Clients)}, sp0 \in {R(1, 2)} :
   \E si \in {IF r = 1 THEN (IF MsgIn(q) = {} THEN SomeM(0) ELSE RandomElement(MsgIn(q))) ELSE 0} :
   LET sp == IF r \in {2, 3} THEN sp0 ELSE 0
       b == Blocking /\ bang = "" /\ bb = 1 /\ si = 0
       C == Candidates(g, q, sp, si, now, now)
   IN /\ Line(Cat(<< bang \o "deq", S(q), S(nextw), S(t), IF si # 0 THEN "i:" \o S(si) ELSE IF sp # 0 THEN "p:" \o S(sp) ELSE "-",
                     IF b THEN "1" ELSE "0", S(c)>>))
      /\ IF C # {} THEN Become(Take(g, CHOOSE m \in C : TRUE, t), wait)
         ELSE IF b THEN g' = g /\ wait' = (nextw :> [q |-> q, t |-> t, sp |-> sp, si |-> si, c |-> c]) @@ wait
         ELSE UNCHANGED << g, wait>>
      /\ nextw' = nextw + 1 /\ UNCHANGED next

(* both branches are concluded, as the transaction manager does *)
Both(bang, what, gt) == IF Branches THEN << bang \o what \o " " \o S(gt * 10), bang \o what \o " " \o S(gt * 10 + 1)>>
                        ELSE << bang \o what \o " " \o S(gt * 10)>>
GCommit(bang) == \E gt \in {Conclude(0)}, r \in {R(1, 3)} :
   /\ Lines((IF r = 1 THEN Both(bang, "prepare", gt) ELSE <<>>) \o Both(bang, "commit", gt))
   /\ Become(Commit(g, gt), wait) /\ Concluded({gt}) /\ UNCHANGED << next, nextw>>
GRollback(bang) == \E gt \in {Conclude(0)}, r \in {R(1, 4)} :
   /\ Lines((IF r = 1 THEN Both(bang, "prepare", gt) ELSE <<>>) \o Both(bang, "rollback", gt))
   /\ Become(Rollback(g, gt, now, now), wait) /\ Concluded({gt}) /\ UNCHANGED << next, nextw>>
GPrepare(bang) == \E gt \in {Conclude(0)} : Lines(Both(bang, "prepare", gt)) /\ UNCHANGED << g, wait, next, nextw>>

GForget == \E w \in {IF DOMAIN wait # {} /\ R(1, 4) # 1 THEN RandomElement(DOMAIN wait) ELSE R(1, nextw)} :
   Line("forget " \o S(w)) /\ wait' = Restrict(wait, DOMAIN wait \ {w}) /\ UNCHANGED << g, next, nextw>>
GExit == \E c \in {R(1, Clients)} :
   /\ Line("exit " \o S(c)) /\ wait' = Restrict(wait, { w \in DOMAIN wait : wait[w].c # c}) /\ UNCHANGED << g, next, nextw>>

GRestore == \E q \in {BaseQ(0)} : Line("restore " \o S(q)) /\ Become(Restore(g, q), wait) /\ UNCHANGED << next, nextw>>
GClear == \E q \in {SomeQ(0)} : Line("clear " \o S(q)) /\ g' = Clear(g, q) /\ UNCHANGED << wait, next, nextw>>
GRemove ==
   \E q \in {IF Ids(g) = {} THEN SomeQ(0) ELSE g.msgs[RandomElement(Ids(g))].q}, f \in {R(1, 2)}, a \in {SomeM(0)} :
   \E b \in {IF MsgIn(q) = {} THEN SomeM(0) ELSE RandomElement(MsgIn(q))} :
   /\ Line(Cat(<< "remove", S(q), IF f = 1 THEN "1" ELSE "0", S(a)>>) \o (IF a = b THEN "" ELSE " " \o S(b)))
   /\ g' = Remove(g, q, f = 1, {a, b}) /\ UNCHANGED << wait, next, nextw>>
GRecover == \E q \in {SomeQ(0)}, a \in {Conclude(0)}, b \in {RandomElement(open)}, d \in {RandomElement({"commit", "rollback"})} :
   /\ Line(Cat(<< "recover", S(q), d, S(a)>>) \o (IF a = b THEN "" ELSE " " \o S(b)))
   /\ Concluded({a, b})
   /\ LET one(h, x) == IF d = "commit" THEN Commit(h, x) ELSE Rollback(h, x, now, now) IN Become(IF a = b THEN one(g, a) ELSE one(one(g, a), b), wait)
   /\ UNCHANGED << next, nextw>>
GReset == \E q \in {SomeQ(0)} : Line("reset " \o S(q)) /\ g' = ResetMetric(g, {q}) /\ UNCHANGED << wait, next, nextw>>
GPeek == \E a \in {SomeM(0)}, b \in {SomeM(0)} : Line(Cat(<< "peek", S(a)>>) \o (IF a = b THEN "" ELSE " " \o S(b))) /\ UNCHANGED << g, wait, next, nextw>>
GMPeek == \E q \in {SomeQ(0)}, p \in {R(0, 1)} : Line(Cat(<< "mpeek", S(q), S(p)>>)) /\ UNCHANGED << g, wait, next, nextw>>
GBrowse == \E q \in {SomeQ(0)} : Line("browse " \o S(q)) /\ UNCHANGED << g, wait, next, nextw>>
GSleep == Line("sleep " \o S(DelayMs + 20)) /\ UNCHANGED << g, wait, next, nextw>>
(* two waiters for messages that become available at different times: the timer has to be set for the earlier one, and
   set again for the other. Only time passes. *)
GTimers == \E a \in {BaseQ(0)}, r \in {R(1, 2)}, d \in {RandomElement({450, 2500})} :
   \E b \in {IF Base \cap AllQ = {a} THEN a ELSE RandomElement((Base \cap AllQ) \ {a})} :
   LET da == IF r = 1 THEN d ELSE 60
       db == IF r = 1 THEN 60 ELSE d
       h == Enqueue(Enqueue(g, a, next, NoTrans, 0, now + da, 10), b, next + 1, NoTrans, 0, now + db, 10)
       w == (nextw :> [q |-> a, t |-> NoTrans, sp |-> 0, si |-> 0, c |-> 1]) @@ (nextw + 1 :> [q |-> b, t |-> NoTrans, sp |-> 0, si |-> 0, c |-> 2]) @@ wait
   IN /\ Lines(<< Cat(<< "enq", S(a), S(next), "0 0", S(da), "10">>), Cat(<< "enq", S(b), S(next + 1), "0 0", S(db), "10">>),
                  Cat(<< "deq", S(a), S(nextw), "0 - 1 1">>), Cat(<< "deq", S(b), S(nextw + 1), "0 - 1 2">>),
                  "sleep " \o S(IF d = 450 THEN 1500 ELSE 1000)>>)
      /\ Become(h, w) /\ next' = next + 2 /\ nextw' = nextw + 2
GCrash == Line("crash") /\ g' = g /\ wait' = <<>> /\ UNCHANGED << next, nextw>>
GShutdown == Line("shutdown hold") /\ wait' = <<>> /\ UNCHANGED << g, next, nextw>>
GConfig ==
   \E D \in {{ x \in Base : R(1, 4) # 1 \/ x = 2}} :
   \E c \in {[ q \in D |-> [retry |-> RandomElement(Retries), delay |-> RandomElement(Delays)]]} :
   /\ Line("config " \o CapText \o CfgText(c, DOMAIN c))
   /\ g' = Configure(g, c) /\ UNCHANGED << wait, next, nextw>>

Op(k) ==
   CASE k = "enq" -> GEnq("") [] k = "deq" -> GDeq("") [] k = "commit" -> GCommit("") [] k = "rollback" -> GRollback("")
     [] k = "prepare" -> GPrepare("") [] k = "forget" -> GForget [] k = "exit" -> GExit [] k = "restore" -> GRestore
     [] k = "clear" -> GClear [] k = "remove" -> GRemove [] k = "recover" -> GRecover [] k = "reset" -> GReset
     [] k = "peek" -> GPeek [] k = "mpeek" -> GMPeek [] k = "browse" -> GBrowse [] k = "sleep" -> GSleep
     [] k = "crash" -> GCrash [] k = "shutdown" -> GShutdown [] k = "config" -> GConfig [] k = "timers" -> GTimers

(* requests without waiting for answers; ended by a crash in the middle of it or by taking the answers *)
BurstOp(r) ==
   CASE r <= 4 -> GEnq("!") [] r \in 5..7 -> GDeq("!") [] r = 8 -> GCommit("!") [] r = 9 -> GRollback("!") [] r = 10 -> GPrepare("!")

Gen ==
   /\ ~done /\ UNCHANGED << done, cfg>>
   /\ IF burst > 1
      THEN /\ burst' = burst - 1 /\ UNCHANGED << n, now>>
           /\ \E r \in {R(1, 10)} : BurstOp(r) /\ (r \in {8, 9} \/ UNCHANGED << open, last>>)
      ELSE IF burst = 1
      THEN /\ burst' = 0 /\ UNCHANGED << n, now, g, wait, next, nextw, open, last>>
           /\ \E d \in {RandomElement({0, 50, 100, 200, 300, 500, 800, 1500, 4000})}, r \in {R(1, 4)} :
                 Line(IF r = 1 THEN "flush" ELSE "crash " \o S(d))
      ELSE /\ n < Length /\ n' = n + 1
           /\ IF n % QuietEvery = QuietEvery - 1 \/ n = Length - 1
              THEN Line("quiet") /\ UNCHANGED << g, wait, next, nextw, now, burst, open, last>>
              ELSE \E k \in {Kinds[R(1, Len(Kinds))]} :
                 IF k = "burst" THEN \E b \in {R(3, 12)} : burst' = b /\ UNCHANGED << g, wait, next, nextw, now, out, open, last>>
                 ELSE /\ Op(k) /\ UNCHANGED burst
                      /\ (k \in {"commit", "rollback", "recover"} \/ UNCHANGED << open, last>>)
                      /\ now' = IF k = "sleep" THEN now + DelayMs + 20 ELSE IF k = "timers" THEN now + 1000 ELSE now

Finish == n = Length /\ burst = 0 /\ ~done /\ done' = TRUE /\ PrintT(<<"SCRIPT", ToJson(out)>>)
          /\ UNCHANGED << g, wait, next, nextw, n, now, cfg, out, burst, open, last>>

Spec == Init /\ [][Gen \/ Finish]_vars
=============================================================================
