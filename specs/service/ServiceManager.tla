-------------------------- MODULE ServiceManager --------------------------
(* The service manager: which instance a caller gets for a service, and      *)
(* what happens to callers and instances when something goes wrong.          *)
(*                                                                           *)
(* A state is a record s; an operation gives the set of possible outcomes    *)
(* [s, out], out is the set of messages it sends (sequences of strings).     *)
(* Points in time are intervals (lo..hi), since the manager reads the clock. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slop, Visibility(_)     \* visibility a service is advertised with

S(x) == ToString(x)
Restrict(f, D) == [ x \in D |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
RECURSIVE Names(_)
Names(X) == IF X = {} THEN "" ELSE LET m == SetMin(X) IN S(m) \o "," \o Names(X \ {m})

(* cfg: [ name |-> [dur, contract, vis, routes]] of configured services, names are numbers; dur 0: none; contract "": not given *)
(* instance: k seq|con, svcs names (seq), rsv lookup that has it (0: idle), call the caller still waits, name of the reservation,
   dis: known to be on its way out *)
Seq0 == [k |-> "seq", svcs |-> {}, rsv |-> 0, call |-> FALSE, rname |-> 0, dis |-> FALSE]
Con0 == [k |-> "con", svcs |-> {}, rsv |-> 0, call |-> FALSE, rname |-> 0, dis |-> FALSE]

Empty(cfg, global) ==
   [inst |-> <<>>,
    svc |-> [ n \in DOMAIN cfg |-> [dur |-> IF cfg[n].dur = 0 THEN global.dur ELSE cfg[n].dur,
                                    contract |-> IF cfg[n].contract = "" THEN global.contract ELSE cfg[n].contract,
                                    vis |-> cfg[n].vis, con |-> <<>>]],
    route |-> [ r \in UNION { cfg[n].routes : n \in DOMAIN cfg} |-> CHOOSE n \in DOMAIN cfg : r \in cfg[n].routes],
    routed |-> { n \in DOMAIN cfg : cfg[n].routes # {}},
    cfg |-> cfg, global |-> global,
    pend |-> <<>>, dl |-> {}, late |-> {}, gone |-> {}, asc |-> <<>>, shut |-> <<>>, ans |-> <<>>]

Known(s, n) == n \in DOMAIN s.svc
(* the service a name leads to; 0: none *)
Origin(s, n) == IF n \in DOMAIN s.route THEN s.route[n] ELSE IF n \in s.routed \/ ~Known(s, n) THEN 0 ELSE n
Sequentials(s, n) == { i \in DOMAIN s.inst : s.inst[i].k = "seq" /\ n \in s.inst[i].svcs /\ ~s.inst[i].dis}
(* an instance that is to be killed because of a timeout is still an instance of its services, but gets no more calls *)
Lingering(s, n) == { i \in DOMAIN s.inst : s.inst[i].k = "seq" /\ n \in s.inst[i].svcs}
Idle(s, n) == { i \in Sequentials(s, n) : s.inst[i].rsv = 0}
HasSeq(s, n) == Lingering(s, n) # {}
HasInstances(s, n) == HasSeq(s, n) \/ s.svc[n].con # <<>>

Best(c) == { i \in DOMAIN c : \A j \in DOMAIN c : c[i][1] < c[j][1] \/ (c[i][1] = c[j][1] /\ c[i][2] <= c[j][2])}
Associated(s, g) == IF g # 0 /\ g \in DOMAIN s.asc THEN s.asc[g] ELSE {}
(* remote instances to choose from: nearest ones, of these the ones the transaction has been to *)
Choice(s, n, g) == LET b == Best(s.svc[n].con) IN IF b \cap Associated(s, g) # {} THEN b \cap Associated(s, g) ELSE b

NoReply(L) == L.sem \in {"no_reply", "forward"}
Pending(s, id) == \E k \in DOMAIN s.pend : s.pend[k].id = id
Without(q, X) == SelectSeq(q, LAMBDA L : L.id \notin X)
Entry(s, id) == { e \in s.dl : e.id = id}
DropDl(s, X) == [s EXCEPT !.dl = { e \in @ : e.id \notin X}]

(* when it has to be done, for a lookup that is taken care of at t.lo..t.hi; {} no limit *)
DeadlineOf(s, L, n, t) ==
   LET d == s.svc[n].dur
       own == IF L.dlo = 0 THEN {} ELSE {<< L.dlo, L.dhi>>}
       new == IF d = 0 THEN {} ELSE {<< t.lo + d, t.hi + d>>}
   IN IF own = {} THEN new ELSE IF new = {} THEN own
      ELSE LET a == CHOOSE x \in own : TRUE  b == CHOOSE x \in new : TRUE IN {<< Min(a[1], b[1]), Min(a[2], b[2])>>}

Found(L, i, n) == << "lookup", S(L.id), "idle", S(i), S(n), IF n = L.nm THEN "0" ELSE S(L.nm)>>
Absent(L) == << "lookup", S(L.id), "absent", "0", S(L.nm), "0">>

(* ---- lookup *)

Reserve(s, L, n, i, t) ==
   LET e == Entry(s, L.id)
       d == IF e # {} THEN { << x.lo, x.hi>> : x \in e} ELSE DeadlineOf(s, L, n, t)
       dl == { x \in s.dl : x.id # L.id} \cup { [id |-> L.id, lo |-> x[1], hi |-> x[2], inst |-> i, n |-> n] : x \in d}
   IN [s |-> [s EXCEPT !.inst[i].rsv = L.id, !.inst[i].call = ~NoReply(L), !.inst[i].rname = n, !.dl = dl, !.ans = (L.id :> d) @@ @],
       out |-> {Found(L, i, n)}]

Wait(s, L, n, t) ==
   CASE L.sem = "no_reply" -> [s |-> s, out |-> {Found(L, 0, n)}]     \* 0: the forward
     [] L.sem = "wait" -> [s |-> [s EXCEPT !.pend = Append(@, L)], out |-> {}]
     [] OTHER -> LET d == IF Entry(s, L.id) # {} THEN {} ELSE DeadlineOf(s, L, n, t)
                 IN [s |-> [s EXCEPT !.pend = Append(@, L), !.dl = @ \cup { [id |-> L.id, lo |-> x[1], hi |-> x[2], inst |-> 0, n |-> n] : x \in d}],
                     out |-> {}]

Discover(s, L, n) == [s |-> [s EXCEPT !.pend = Append(@, L)], out |-> {<< "discover", S(L.id), S(n)>>}]

Lookup(s, L, t) ==
   LET n == Origin(s, L.nm)
       absent == {[s |-> DropDl(s, {L.id}), out |-> {Absent(L)}]}
   IN IF n # 0 THEN
         IF HasSeq(s, n) THEN
            { Reserve(s, L, n, i, t) : i \in Idle(s, n)}
               \cup (IF Idle(s, n) = {} THEN {Wait(s, L, n, t)} ELSE {})
         ELSE IF L.req = "external" THEN absent
         ELSE IF s.svc[n].con # <<>> THEN
            { LET d == DeadlineOf(s, L, n, t) IN
              [s |-> [DropDl(s, {L.id}) EXCEPT !.asc = IF L.g = 0 THEN @ ELSE (L.g :> Associated(s, L.g) \cup {i}) @@ @, !.ans = (L.id :> d) @@ @],
               out |-> {Found(L, i, n)}] : i \in Choice(s, n, L.g)}
         ELSE {Discover(s, L, n)}
      ELSE IF L.req = "internal" THEN {Discover(s, L, L.nm)} ELSE absent

(* lookups that were pending, one after the other *)
RECURSIVE Again(_, _, _)
Again(R, Q, t) ==
   IF Q = <<>> THEN R
   ELSE Again(UNION { { [s |-> y.s, out |-> x.out \cup y.out] : y \in Lookup(x.s, Head(Q), t)} : x \in R}, Tail(Q), t)
AgainAll(R, t) == UNION { Again({[s |-> [x.s EXCEPT !.pend = <<>>], out |-> x.out]}, x.s.pend, t) : x \in R}

(* ---- an instance is free: the lookup that has waited the longest for a service it has gets it.
   With pending lookups for several services of the instance any of the services may be chosen *)
First(s, k) == \A j \in 1..(k - 1) : Origin(s, s.pend[j].nm) # Origin(s, s.pend[k].nm)
Eligible(s, i) == { k \in DOMAIN s.pend : Origin(s, s.pend[k].nm) \in s.inst[i].svcs /\ First(s, k)}
Available(s, i, t) ==
   IF Eligible(s, i) = {} THEN {[s |-> s, out |-> {}]}
   ELSE UNION { Lookup([s EXCEPT !.pend = Without(@, {s.pend[k].id})], s.pend[k], t) : k \in Eligible(s, i)}

(* ---- prepare shutdown: [n, wait: instances that are busy, done] *)
ShutReply(n, X) == << "prep", S(n), Names(X)>>
(* w: instance that is done, or gone *)
ShutDone(s, i, gone) ==
   LET hit == { k \in DOMAIN s.shut : i \in s.shut[k].wait}
       upd(r) == [r EXCEPT !.wait = @ \ {i}, !.done = IF gone THEN @ ELSE @ \cup {i}]
       all == [ k \in DOMAIN s.shut |-> IF k \in hit THEN upd(s.shut[k]) ELSE s.shut[k]]
       over == { k \in hit : all[k].wait = {}}
   IN [s |-> [s EXCEPT !.shut = Restrict(all, DOMAIN all \ over)], out |-> { ShutReply(k, all[k].done) : k \in over}]

Free(s, i, t) ==
   LET r == [s EXCEPT !.inst[i].rsv = 0, !.inst[i].call = FALSE, !.inst[i].rname = 0]
   IN IF s.inst[i].dis THEN {ShutDone(r, i, FALSE)} ELSE Available(r, i, t)

(* ---- operations *)

(* trid: the transaction the call was done in, 0 none. The caller of a call that has timed out has its answer, and most
   likely has rolled back: what was done afterwards is rolled back too *)
Ack(s, i, id, trid, t) ==
   LET late == trid # 0 /\ i \in s.late
       a == [DropDl(s, {id}) EXCEPT !.late = @ \ {i}]
       r == IF i \in DOMAIN s.inst THEN Free(a, i, t) ELSE {[s |-> a, out |-> {}]}
   IN { [x EXCEPT !.out = @ \cup (IF late THEN {<< "rollback", S(trid)>>} ELSE {})] : x \in r}

Discard(s, id, reply, t) ==
   LET told(state) == IF reply THEN {<< "discard", S(id), state>>} ELSE {} IN
   IF Pending(s, id) THEN {[s |-> [DropDl(s, {id}) EXCEPT !.pend = Without(@, {id})], out |-> told("discarded")]}
   ELSE LET I == { i \in DOMAIN s.inst : s.inst[i].rsv = id /\ s.inst[i].call} IN
        IF I = {} THEN {[s |-> s, out |-> told("replied")]}
        ELSE LET i == CHOOSE i \in I : TRUE IN { [x EXCEPT !.out = @ \cup told("replied")] : x \in Free(DropDl(s, {id}), i, t)}

(* the process of an instance is gone *)
Gone(s, i) ==
   IF i \notin DOMAIN s.inst THEN [s |-> s, out |-> {}]
   ELSE LET x == s.inst[i]
            a == [DropDl(s, IF x.rsv = 0 THEN {} ELSE {x.rsv}) EXCEPT !.inst = Restrict(@, DOMAIN @ \ {i}),
                    !.svc = [ n \in DOMAIN @ |-> [@[n] EXCEPT !.con = Restrict(@, DOMAIN @ \ {i})]],
                    !.asc = [ g \in DOMAIN @ |-> @[g] \ {i}]]
        IN [s |-> a, out |-> IF x.call THEN {<< "error", S(x.rsv), "service_error">>} ELSE {}]
Exit(s, i, t) ==
   LET a == ShutDone(s, i, TRUE)
       b == Gone([a.s EXCEPT !.late = @ \ {i}], i)
   IN AgainAll({[s |-> b.s, out |-> a.out \cup b.out]}, t)

(* services that were not known take the global settings d. The visibility of the first that advertises counts, if it
   is not configured *)
NewServices(s, X, d) ==
   LET a == [s EXCEPT !.svc = [ n \in X \ DOMAIN s.svc |-> [dur |-> d.dur, contract |-> d.contract, vis |-> "", con |-> <<>>]] @@ @]
   IN [a EXCEPT !.svc = [ n \in DOMAIN @ |-> IF n \in X /\ @[n].vis = "" THEN [@[n] EXCEPT !.vis = Visibility(n)] ELSE @[n]]]

(* services in X have lost an instance: what is pending for those that have none left is looked up again *)
AgainLost(r, X, t) ==
   LET q == SelectSeq(r.s.pend, LAMBDA L : LET n == Origin(r.s, L.nm) IN n \in X /\ ~HasInstances(r.s, n))
       ids == { q[k].id : k \in DOMAIN q}
   IN Again({[s |-> [r.s EXCEPT !.pend = Without(@, ids)], out |-> r.out]}, q, t)

(* sequential instance i withdraws everything *)
Clear(s, i, t) ==
   IF i \notin DOMAIN s.inst THEN {[s |-> s, out |-> {}]}
   ELSE AgainLost([s |-> Gone(s, i).s, out |-> {}], s.inst[i].svcs, t)

(* sequential instance i; add is what is left of the advertised services after restriction *)
Advertise(s, i, add, rem, t) ==
   LET a == IF i \in DOMAIN s.inst THEN s ELSE [s EXCEPT !.inst = (i :> Seq0) @@ @] IN
   IF a.inst[i].dis THEN {[s |-> a, out |-> {}]}
   ELSE LET b == [NewServices(a, add, s.global) EXCEPT !.inst[i].svcs = (@ \cup add) \ rem]
            r == IF b.inst[i].rsv = 0 THEN Available(b, i, t) ELSE {[s |-> b, out |-> {}]}
        IN UNION { AgainLost(x, rem, t) : x \in r}

(* concurrent instance i; add: name -> hops *)
ConAdvertise(s, i, order, add, rem, t) ==
   LET a == IF i \in DOMAIN s.inst THEN s ELSE [s EXCEPT !.inst = (i :> Con0) @@ @]
       b == NewServices(a, DOMAIN add, [dur |-> 0, contract |-> ""])
       c == [b EXCEPT !.svc = [ n \in DOMAIN @ |-> [@[n] EXCEPT !.con =
                 IF n \in rem THEN Restrict(@, DOMAIN @ \ {i})
                 ELSE IF n \in DOMAIN add /\ i \notin DOMAIN @ THEN (i :> << order, add[n]>>) @@ @ ELSE @]]]
       enabled == SelectSeq(c.pend, LAMBDA L : LET n == Origin(c, L.nm) IN n # 0 /\ ~HasSeq(c, n) /\ c.svc[n].con # <<>>)
       ids == { enabled[k].id : k \in DOMAIN enabled}
   IN Again({[s |-> [c EXCEPT !.pend = Without(@, ids)], out |-> {}]}, enabled, t)
ConOrder(s, i, order) ==
   {[s |-> IF i \notin DOMAIN s.inst THEN s
           ELSE [s EXCEPT !.svc = [ n \in DOMAIN @ |-> [@[n] EXCEPT !.con = IF i \in DOMAIN @ THEN [@ EXCEPT ![i] = << order, @[2]>>] ELSE @]]],
     out |-> {}]}
ConReset(s, i) == {[s |-> Gone(s, i).s, out |-> {}]}

(* X: instances that are asked to be let go (some of them may be unknown) *)
Prepare(s, n, X, t) ==
   LET known == { i \in X : i \in DOMAIN s.inst /\ s.inst[i].k = "seq"}
       busy == { i \in known : s.inst[i].rsv # 0}
       a == [s EXCEPT !.inst = [ i \in DOMAIN @ |-> IF i \in known THEN [@[i] EXCEPT !.svcs = {}, !.dis = @ \/ i \in busy] ELSE @[i]]]
       lost == { m \in UNION { s.inst[i].svcs : i \in known} : ~HasInstances(a, m)}
       again == SelectSeq(a.pend, LAMBDA L : Origin(a, L.nm) \in lost)
       ids == { again[k].id : k \in DOMAIN again}
       direct == IF X \ busy # {} THEN {ShutReply(n, X \ busy)} ELSE {}
       b == [a EXCEPT !.pend = Without(@, ids), !.shut = IF busy = {} THEN @ ELSE (n :> [wait |-> busy, done |-> {}]) @@ @]
   IN { [x EXCEPT !.out = @ \cup direct] : x \in Again({[s |-> b, out |-> {}]}, again, t)}

Disassociate(s, g) == {[s |-> [s EXCEPT !.asc = Restrict(@, DOMAIN @ \ {g})], out |-> {}]}

(* the answer of the domains around *)
Discovered(s, id, t) ==
   IF ~Pending(s, id) THEN {[s |-> s, out |-> {}]}
   ELSE LET L == CHOOSE x \in { s.pend[k] : k \in DOMAIN s.pend} : x.id = id
            n == Origin(s, L.nm)
            a == [s EXCEPT !.pend = Without(@, {id})]
        IN IF n # 0 /\ HasInstances(s, n) THEN Lookup(a, L, t)
           ELSE IF L.sem = "wait" THEN {[s |-> s, out |-> {}]}
           ELSE {[s |-> DropDl(a, {id}), out |-> {Absent(L)}]}

(* a caller is gone, with what it waits for. ids: its lookups *)
CallerGone(s, c) ==
   LET P == { k \in DOMAIN s.pend : s.pend[k].c = c}  ids == { s.pend[k].id : k \in P} IN
   {[s |-> [DropDl(s, ids) EXCEPT !.pend = Without(@, ids), !.gone = @ \cup {c}], out |-> {}]}

(* what other domains may know *)
Discoverable(s, n) == s.svc[n].vis # "undiscoverable"
Visible(s, X, scope) == { m \in X : LET n == Origin(s, m) IN n # 0 /\ Discoverable(s, n) /\ IF scope = "internal" THEN HasSeq(s, n) ELSE HasInstances(s, n)}
LookupNames(s) == (DOMAIN s.svc \ s.routed) \cup DOMAIN s.route
Remote(s) == { m \in LookupNames(s) : ~HasSeq(s, Origin(s, m))} \cup { s.pend[k].nm : k \in { j \in DOMAIN s.pend : s.pend[j].sem = "wait"}}

(* ---- time *)
Fatal(c) == c \in {"kill", "abort"}
Expire(s, e) ==
   LET a == [s EXCEPT !.dl = @ \ {e}] IN
   IF Pending(s, e.id) THEN
      [s |-> [a EXCEPT !.pend = Without(@, {e.id})], out |-> {<< "lookup", S(e.id), "timeout", "0", "", "0">>}]
   ELSE IF e.inst # 0 /\ e.inst \in DOMAIN s.inst /\ s.inst[e.inst].rsv = e.id /\ s.inst[e.inst].call THEN
      LET c == IF s.svc[e.n].contract = "" THEN "linger" ELSE s.svc[e.n].contract
          i == e.inst
      IN [s |-> [a EXCEPT !.inst[i].call = FALSE, !.inst[i].dis = @ \/ Fatal(c), !.late = @ \cup {i}],
          out |-> {<< "error", S(e.id), "timeout">>, << "kill", S(i), c>>}]
   ELSE [s |-> a, out |-> {}]
RECURSIVE ExpireAll(_, _)
ExpireAll(x, E) == IF E = {} THEN x ELSE LET e == CHOOSE e \in E : TRUE
                                             y == Expire(x.s, e) IN ExpireAll([s |-> y.s, out |-> x.out \cup y.out], E \ {e})

(* ---- invariants *)
TypeInv(s) ==
   /\ \A i, j \in DOMAIN s.inst : i # j /\ s.inst[i].rsv # 0 => s.inst[i].rsv # s.inst[j].rsv
   /\ \A i \in DOMAIN s.inst : s.inst[i].k = "con" => s.inst[i].rsv = 0
   /\ \A k \in DOMAIN s.pend : \A i \in DOMAIN s.inst : s.inst[i].rsv # s.pend[k].id
   /\ \A j, k \in DOMAIN s.pend : j # k => s.pend[j].id # s.pend[k].id
(* nobody waits for a service while an instance of it is idle *)
NoIdleWaiting(s) ==
   \A k \in DOMAIN s.pend : LET n == Origin(s, s.pend[k].nm) IN
      n # 0 /\ s.pend[k].sem # "wait" => \A i \in Lingering(s, n) : s.inst[i].rsv # 0 \/ s.inst[i].dis
=============================================================================
