---------------------------- MODULE QueueManager ----------------------------
(* The queue manager of a domain: leads those who look a queue up to the      *)
(* queue group of the domain that has it, or to an outbound gateway that has  *)
(* advertised it for another domain.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Names == <<"qa", "qb", "qd", "qe", "qx", "qy">>
Join(q) == IF q = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", q)
Text(S) == Join(SelectSeq(Names, LAMBDA n : n \in S))
Locals == { [name |-> "qa", who |-> "A", order |-> 0, en |-> TRUE, de |-> TRUE], [name |-> "qe", who |-> "A", order |-> 0, en |-> TRUE, de |-> FALSE],
            [name |-> "qd", who |-> "A", order |-> 0, en |-> FALSE, de |-> TRUE], [name |-> "qb", who |-> "B", order |-> 0, en |-> TRUE, de |-> TRUE]}
Init0 == [q |-> Locals,          \* who provides what
          groups |-> {"A", "B"}, held |-> {},
          remotes |-> {},        \* the outbounds that have advertised
          pend |-> <<>>,         \* lookups that wait
          up |-> {}, lvl |-> "running", gone |-> FALSE, rows |-> <<>>]

Row(t, r) == [t EXCEPT !.rows = Append(@, r)]
Enabled(p, act) == CASE act = "enqueue" -> p.en [] act = "dequeue" -> p.de [] OTHER -> TRUE
Providers(t, name, act, req) == {p \in t.q : p.name = name /\ Enabled(p, act) /\ (req = "external" => p.order = 0)}
Best(P) == {p \in P : \A o \in P : p.order <= o.order}
(* what the answer may be: anyone with the best order *)
Texts(name, P) == IF P = {} THEN {name \o "=-"} ELSE {name \o "=" \o p.who \o ":" \o ToString(p.order) : p \in Best(P)}
Answer(t, l, P) == IF ~l.lost THEN Row(t, <<"reply", l.who, l.id, Texts(l.name, P)>>) ELSE t

Lookup(t, l) ==
  IF t.lvl # "running" THEN Answer(t, l, {})
  ELSE LET P == Providers(t, l.name, l.act, l.req)
       IN IF P # {} THEN Answer(t, l, P)
          ELSE IF l.req = "internal" THEN Row([t EXCEPT !.pend = Append(@, l)], <<"discover", l.id, "-/" \o l.name>>)
          ELSE IF l.sem = "wait" THEN [t EXCEPT !.pend = Append(@, l)]
          ELSE Answer(t, l, {})
(* those that wait, and can be answered now *)
Check(t) ==
  LET ready(l) == Providers(t, l.name, l.act, l.req) # {} /\ ~l.lost
      rest(l) == ~ready(l)
  IN FoldLeft(LAMBDA u, l : Answer(u, l, Providers(t, l.name, l.act, l.req)), [t EXCEPT !.pend = SelectSeq(@, rest)], SelectSeq(t.pend, ready))
Discovered(t, id) ==
  LET u == Check(t)
      is(l) == l.id = id /\ l.sem = "direct"
      other(l) == ~is(l)
  IN FoldLeft(LAMBDA v, l : Answer(v, l, {}), [u EXCEPT !.pend = SelectSeq(@, other)], SelectSeq(u.pend, is))
Discard(t, id, who) ==
  LET other(l) == l.id # id
      found == \E l \in Range(t.pend) : l.id = id
  IN Row([t EXCEPT !.pend = SelectSeq(@, other)], <<"discarded", who, id, IF found THEN "1" ELSE "0">>)
(* add: set of [name, en, de] *)
Advertise(t, o, order, add, remove) ==
  Check([t EXCEPT !.remotes = @ \cup {o},
                  !.q = {p \in @ \cup {[name |-> a.name, who |-> o, order |-> order + 1, en |-> a.en, de |-> a.de] : a \in add} : ~(p.who = o /\ p.name \in remove)}])
Instance(t, o, order) == IF o \in t.remotes THEN Check([t EXCEPT !.q = {IF p.who = o THEN [p EXCEPT !.order = order + 1] ELSE p : p \in @}]) ELSE Check(t)
Reset(t, o) == Check([t EXCEPT !.q = {p \in @ : p.who # o}])
Find(t, id, who, scope, names) ==
  LET of(n) == Providers(t, n, "any", IF scope = "internal" THEN "external" ELSE "internal")
      found == {n \in names : of(n) # {}}
      text(p) == p.name \o (IF p.en /\ p.de THEN "" ELSE IF p.en THEN "+e" ELSE "+d")
      all == SelectSeq(Names, LAMBDA n : n \in found)
      texts == {f \in [1..Len(all) -> UNION {{text(p) : p \in Best(of(n))} : n \in found}] : \A i \in DOMAIN all : f[i] \in {text(p) : p \in Best(of(all[i]))}}
  IN Row(t, <<"found", who, id, {Join(f) : f \in texts}, Text(names \ found)>>)
KnownNames(t) == {p.name : p \in {x \in t.q : x.order > 0}} \cup {l.name : l \in {x \in Range(t.pend) : x.sem = "wait"}}
(* who has taken down where it is answered: what it gets next is elsewhere *)
Vanish(t, who) == [t EXCEPT !.up = @ \ {who}, !.pend = [i \in DOMAIN @ |-> IF @[i].who = who THEN [@[i] EXCEPT !.lost = TRUE] ELSE @[i]]]
Gone(t, w, how) ==
  LET u == [Vanish(t, w) EXCEPT !.q = {p \in @ : p.who # w}]
      other(l) == l.who # w
  IN IF how = "ipc" THEN u ELSE [u EXCEPT !.groups = @ \ {w}, !.held = @ \ {w}, !.remotes = @ \ {w}, !.pend = SelectSeq(@, other)]
Shutdown(t) == FoldLeft(LAMBDA u, l : Answer(u, l, {}), [t EXCEPT !.lvl = "shutdown", !.pend = <<>>], t.pend)

Here(t, who) == [t EXCEPT !.up = @ \cup {who}]
Step(t, w) ==
  CASE w[1] = "lookup" -> Lookup(Here(t, w[3]), [id |-> w[2], who |-> w[3], name |-> w[4], sem |-> w[5], req |-> w[6], act |-> w[7], lost |-> FALSE])
    [] w[1] = "discard" -> Discard(Here(t, w[3]), w[2], w[3])
    [] w[1] = "discovered" -> Discovered(t, w[2])
    [] w[1] = "advertise" -> Advertise(Here(t, w[2]), w[2], w[3], w[4], w[5])
    [] w[1] = "instance" -> Instance(Here(t, w[2]), w[2], w[3])
    [] w[1] = "reset" -> Reset(Here(t, w[2]), w[2])
    [] w[1] = "find" -> Find(Here(t, w[3]), w[2], w[3], w[4], w[5])
    [] w[1] = "known" -> Row(Here(t, w[3]), <<"known", w[3], w[2], Text(KnownNames(t))>>)
    [] w[1] = "hold" -> [t EXCEPT !.held = @ \cup {w[2]}]
    [] w[1] = "release" -> [t EXCEPT !.held = @ \ {w[2]}]
    [] w[1] = "vanish" -> Vanish(t, w[2])
    [] w[1] = "gone" -> Gone(t, w[2], IF w[2] \in t.groups THEN "exit" ELSE w[3])
    [] w[1] = "shutdown" -> Shutdown(t)
    [] OTHER -> t
(* it ends when the last of its groups has *)
After(t, w) == LET u == Step([t EXCEPT !.rows = <<>>], w) IN [u EXCEPT !.gone = u.lvl = "shutdown" /\ u.held = {}]

TypeInv(t) ==
  /\ \A i, j \in DOMAIN t.pend : i # j => t.pend[i].id # t.pend[j].id
  (* nobody that is there waits for a queue that is there *)
  /\ \A l \in Range(t.pend) : ~l.lost => Providers(t, l.name, l.act, l.req) = {}
  /\ \A p \in t.q : p.who \in t.groups \/ p.order > 0
  /\ (t.lvl # "running" => t.pend = <<>>)
=============================================================================
