----------------------------- MODULE Discovery -----------------------------
(* The discovery of a domain (casual-domain-discovery), which asks the        *)
(* providers of the domain for services and queues on behalf of others.       *)
(*                                                                            *)
(*  - a request of another domain (through a gateway inbound) is looked up    *)
(*    at the providers within the domain, and, when it is to be forwarded,    *)
(*    what was not found is discovered outside of it.                         *)
(*  - a request of this domain (api) is discovered at once.                   *)
(*  - after a change of the topology everything that is known, and that is    *)
(*    wanted right now, is explored at the connections that are new. Such     *)
(*    changes, and requests when there is a lot to do, are accumulated.       *)
(*                                                                            *)
(* Each step of the machine is one message, t is the state, and t.rows are    *)
(* the messages that are sent. Labels of requests: provider.n                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Services == <<"a", "b", "c", "x", "y">>
Names == <<"a", "b", "c", "q", "r", "x", "y">>
IsService(n) == n \in Range(Services)
Join(order, S) == LET in == SelectSeq(order, LAMBDA n : n \in S)
                  IN IF in = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", in)
Text(S) == Join(Names, S)
ByText == [w \in {Text(S) : S \in SUBSET Range(Names)} |-> CHOOSE S \in SUBSET Range(Names) : Text(S) = w]
Domains == <<"d1", "d2", "d3", "vf">>
DomainsByText == [w \in {Join(Domains, S) : S \in SUBSET Range(Domains)} |-> CHOOSE S \in SUBSET Range(Domains) : Join(Domains, S) = w]

Window == 3        \* more requests than this at the same time are accumulated

NoRequests == [disc |-> <<>>, api |-> <<>>, dir |-> <<>>, imp |-> <<>>, look |-> {}]
Init0 == [prov |-> {},          \* << who, abilities>> that have registered
          up |-> {},            \* of those, and of others, the ones whose ipc is there
          routes |-> << >>,     \* origin -> names it is known by instead
          dl |-> FALSE,         \* the timer of the accumulated is set
          acc |-> NoRequests,
          cnt |-> 0,            \* requests of other domains that have come, less those that are replied
          look |-> <<>>, disc |-> <<>>, known |-> <<>>,   \* what is waited for
          n |-> << >>, lvl |-> "running", gone |-> FALSE, rows |-> <<>>]

Up(t, w) == w \in t.up
Row(t, r) == [t EXCEPT !.rows = Append(@, r)]
Known(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Has(t, who, ability) == \E p \in t.prov : p[1] = who /\ ability \in p[2]

(* routes *)
Origin(t, n) == IF \E o \in DOMAIN t.routes : n \in t.routes[o] THEN CHOOSE o \in DOMAIN t.routes : n \in t.routes[o] ELSE n
Asked(t, C) == {IF IsService(n) THEN Origin(t, n) ELSE n : n \in C}
Offered(t, C) == UNION {IF IsService(n) /\ n \in DOMAIN t.routes THEN t.routes[n] ELSE {n} : n \in C}

(* asks everyone with the ability, gives the state and the labels *)
Fan(t, ability, what) ==
  LET to == {p[1] : p \in {e \in t.prov : ability \in e[2]}} \cap t.up
      n == [w \in DOMAIN t.n \cup to |-> Known(t.n, w, 0) + (IF w \in to THEN 1 ELSE 0)]
      label(w) == w \o "." \o ToString(n[w])
  IN [t |-> [t EXCEPT !.n = n, !.rows = @ \o SetToSeq({ <<what[1], w, label(w)>> \o Tail(what) : w \in to})],
      pend |-> {[label |-> label(w), who |-> w] : w \in to}]

Answer(t, kind, r, C) ==
  IF ~Up(t, r.who) THEN t
  ELSE [Row(t, <<"answer", r.who, r.id, Text(C)>>) EXCEPT !.cnt = @ - (IF kind = "disc" THEN 1 ELSE 0)]
AnswerAll(t, kind, rs, C) == FoldLeft(LAMBDA u, r : Answer(u, kind, r, r.c \cap C), t, rs)

(*--- discover ---*)
DiscDone(t, e) ==
  IF e.kind = "redis" THEN Answer(t, "redis", e.r, e.c)
  ELSE AnswerAll(AnswerAll(t, "api", e.api, e.c), "disc", e.disc, e.c)
Add(t, e) == IF e.pend = {} THEN DiscDone(t, e) ELSE [t EXCEPT !.disc = Append(@, e)]
All(rs) == UNION {r.c : r \in Range(rs)}
Discover(t, disc, api, local) ==
  IF disc = <<>> /\ api = <<>> THEN t
  ELSE LET C == Asked(t, (All(disc) \cup All(api)) \ local)
           f == IF C = {} THEN [t |-> t, pend |-> {}] ELSE Fan(t, "d", <<"discover", Text(C)>>)
       IN Add(f.t, [kind |-> "agg", pend |-> f.pend, dead |-> {}, want |-> C, c |-> local, disc |-> disc, api |-> api])
Pending(t) == UNION {e.want : e \in {x \in Range(t.disc) : x.kind = "agg"}}

Found(t, label, C) ==
  LET is == {i \in DOMAIN t.disc : \E p \in t.disc[i].pend \cup t.disc[i].dead : p.label = label}
  IN IF is = {} THEN t
     ELSE LET i == CHOOSE j \in is : TRUE
              e == t.disc[i]
              c == IF e.kind = "redis" THEN e.c \cup C ELSE e.c \cup Offered(t, C)
              in(r) == r.c \subseteq c
              out(r) == ~(r.c \subseteq c)
              e2 == [e EXCEPT !.c = c, !.pend = {p \in @ : p.label # label}, !.dead = {p \in @ : p.label # label}]
              e3 == IF e.kind = "redis" THEN e2 ELSE [e2 EXCEPT !.api = SelectSeq(@, out), !.disc = SelectSeq(@, out)]
              u == IF e.kind = "redis" THEN t ELSE AnswerAll(AnswerAll(t, "api", SelectSeq(e.api, in), c), "disc", SelectSeq(e.disc, in), c)
          IN IF e.kind = "agg" /\ e3.api = <<>> /\ e3.disc = <<>> THEN [u EXCEPT !.disc = RemoveAt(@, i)]
             ELSE IF e3.pend = {} THEN [DiscDone(u, e3) EXCEPT !.disc = RemoveAt(@, i)]
             ELSE [u EXCEPT !.disc[i] = e3]

(*--- lookup within the domain ---*)
Accumulates(t) == t.dl \/ t.cnt > Window
LookDone(t, e) ==
  IF e.kind = "local" THEN Answer(t, "disc", e.r, e.c)
  ELSE IF e.r.c \subseteq e.c THEN Answer(t, "disc", e.r, e.r.c)
  ELSE IF Accumulates(t) THEN [t EXCEPT !.dl = TRUE, !.acc.disc = Append(@, e.r), !.acc.look = @ \cup e.c]
  ELSE Discover(t, <<e.r>>, <<>>, e.c)
Lookup(t, r, directive) ==
  LET f == Fan(t, "l", <<"lookup", IF directive = "local" THEN "internal" ELSE "extended", Text(r.c)>>)
      e == [kind |-> directive, pend |-> f.pend, r |-> r, c |-> {}]
  IN IF f.pend = {} THEN LookDone(f.t, e) ELSE [f.t EXCEPT !.look = Append(@, e)]
Of(q, label) == {i \in DOMAIN q : \E p \in q[i].pend : p.label = label}
LookedUp(t, label, C) ==
  IF Of(t.look, label) = {} THEN t
  ELSE LET i == CHOOSE j \in Of(t.look, label) : TRUE
           e == [t.look[i] EXCEPT !.c = @ \cup C, !.pend = {p \in @ : p.label # label}]
       IN IF e.pend = {} THEN LookDone([t EXCEPT !.look = RemoveAt(@, i)], e) ELSE [t EXCEPT !.look[i] = e]

(*--- what is known, and the topology ---*)
KnownDone(t, e) ==
  IF e.kind = "redis" THEN
    LET C == Asked(t, e.c) \cup Pending(t)
        f == Fan(t, "d", <<"discover", Text(C)>>)
    IN Add(f.t, [kind |-> "redis", pend |-> f.pend, dead |-> {}, want |-> {}, c |-> {}, r |-> e.r])
  ELSE
    LET C == Asked(t, e.c \cup UNION {d.c : d \in Range(e.dir)}) \cup Pending(t)
        to == {d.who : d \in Range(e.dir)} \cup {d.who : d \in Range(e.imp)}
        u == IF C = {} THEN t ELSE [t EXCEPT !.rows = @ \o SetToSeq({ <<"explore", w, Text(C)>> : w \in to \cap t.up})]
        ds == {"vf"} \cup UNION {d.domains : d \in Range(e.imp)}
    IN [u EXCEPT !.rows = @ \o SetToSeq({ <<"implicit", w, Join(Domains, ds)>> : w \in {p[1] : p \in {x \in t.prov : "t" \in x[2]}} \cap t.up})]
AskKnown(t, e) ==
  LET f == Fan(t, "k", <<"known">>)
  IN IF f.pend = {} THEN KnownDone(f.t, e) ELSE [f.t EXCEPT !.known = Append(@, [e EXCEPT !.pend = f.pend])]
Explore(t, dir, imp) ==
  IF dir = <<>> /\ imp = <<>> THEN t ELSE AskKnown(t, [kind |-> "topology", pend |-> {}, c |-> {}, dir |-> dir, imp |-> imp])
Knows(t, label, C) ==
  IF Of(t.known, label) = {} THEN t
  ELSE LET i == CHOOSE j \in Of(t.known, label) : TRUE
           e == [t.known[i] EXCEPT !.c = @ \cup C, !.pend = {p \in @ : p.label # label}]
       IN IF e.pend = {} THEN KnownDone([t EXCEPT !.known = RemoveAt(@, i)], e) ELSE [t EXCEPT !.known[i] = e]

(*--- someone is gone ---*)
FailDisc(t, w) ==
  FoldLeft(LAMBDA u, e :
     LET e2 == [e EXCEPT !.pend = {p \in @ : p.who # w}, !.dead = @ \cup {p \in e.pend : p.who = w}]
     IN IF e2.pend = {} THEN DiscDone(u, e2) ELSE [u EXCEPT !.disc = Append(@, e2)],
     [t EXCEPT !.disc = <<>>], t.disc)
Alive(e, w) == [e EXCEPT !.pend = {p \in @ : p.who # w}]
Fail(t, w, field, Done(_, _)) ==
  LET keep == SelectSeq(t[field], LAMBDA e : Alive(e, w).pend # {})
      done == SelectSeq(t[field], LAMBDA e : Alive(e, w).pend = {})
      u == [t EXCEPT ![field] = [i \in DOMAIN keep |-> Alive(keep[i], w)]]
  IN FoldLeft(LAMBDA v, e : Done(v, Alive(e, w)), u, done)
Gone(t, w) ==
  LET t1 == [t EXCEPT !.prov = {p \in @ : p[1] # w}, !.up = @ \ {w}]
      t2 == FailDisc(t1, w)
      t3 == Fail(t2, w, "look", LookDone)
  IN Fail(t3, w, "known", KnownDone)

(*--- messages ---*)
Request(t, r, directive) ==
  LET u == [t EXCEPT !.cnt = @ + 1]
  IN IF u.lvl # "running" THEN Answer(u, "disc", r, {}) ELSE Lookup(u, r, directive)
Api(t, r) ==
  IF t.lvl # "running" \/ r.c = {} THEN Answer(t, "api", r, {})
  ELSE IF Accumulates(t) THEN [t EXCEPT !.dl = TRUE, !.acc.api = Append(@, r)]
  ELSE Discover(t, <<>>, <<r>>, {})
Timeout(t) ==
  LET a == t.acc
      u == Explore([t EXCEPT !.acc = NoRequests, !.dl = FALSE], a.dir, a.imp)
  IN Discover(u, a.disc, a.api, a.look)
Here(t, who) == [t EXCEPT !.up = @ \cup {who}]
Req(id, who, c) == [id |-> id, who |-> who, c |-> c]
Ended(t) == [t EXCEPT !.gone = t.lvl # "running" /\ t.look = <<>> /\ t.disc = <<>> /\ t.known = <<>> /\ t.acc.disc = <<>> /\ t.acc.api = <<>>]

(* w: the words of the script, with sets as contents *)
Step(t, w) ==
  CASE w[1] = "register" -> LET u == Here(t, w[2]) IN Row(IF \E p \in u.prov : p[1] = w[2] THEN u ELSE [u EXCEPT !.prov = @ \cup { <<w[2], w[3]>>}], <<"registered", w[2]>>)
    [] w[1] = "request" -> Request(Here(t, w[3]), Req(w[2], w[3], w[5]), w[4])
    [] w[1] = "api" -> Api(Here(t, w[3]), Req(w[2], w[3], w[4]))
    [] w[1] = "rediscover" -> AskKnown(Here(t, w[3]), [kind |-> "redis", pend |-> {}, c |-> {}, r |-> Req(w[2], w[3], {})])
    [] w[1] = "lookedup" -> LookedUp(t, w[2], w[3])
    [] w[1] = "discovered" -> Found(t, w[2], w[3])
    [] w[1] = "knows" -> Knows(t, w[2], w[3])
    [] w[1] = "direct" -> LET u == Here(t, w[2]) IN IF u.lvl # "running" THEN u ELSE [u EXCEPT !.dl = TRUE, !.acc.dir = Append(@, [who |-> w[2], c |-> w[3]])]
    [] w[1] = "implicit" -> LET u == Here(t, w[2]) IN IF u.lvl # "running" \/ "vf" \in w[3] THEN u ELSE [u EXCEPT !.dl = TRUE, !.acc.imp = Append(@, [who |-> w[2], domains |-> w[3]])]
    [] w[1] = "timeout" -> Timeout(t)
    [] w[1] = "vanish" -> [t EXCEPT !.up = @ \ {w[2]}]
    [] w[1] = "gone" -> Gone(t, w[2])
    [] w[1] = "config" -> Row([t EXCEPT !.routes = w[2]], <<"updated">>)
    [] w[1] = "shutdown" -> [t EXCEPT !.lvl = "shutdown"]
    [] w[1] = "boot" -> [t EXCEPT !.routes = w[2]]
After(t, w) == Ended(Step([t EXCEPT !.rows = <<>>], w))

(*--- what has to hold ---*)
Held(t) == [id \in {} |-> 0]
HeldIds(t) ==
  LET of(rs) == [i \in DOMAIN rs |-> rs[i].id]
      entry(e) == IF e.kind = "agg" THEN of(e.disc) \o of(e.api) ELSE IF e.kind = "topology" THEN <<>> ELSE <<e.r.id>>
      entries(q) == FoldLeft(LAMBDA a, e : a \o entry(e), <<>>, q)
  IN entries(t.look) \o entries(t.disc) \o entries(t.known) \o of(t.acc.disc) \o of(t.acc.api)
TypeInv(t) ==
  /\ IsInjective(HeldIds(t))                                 \* a request is in one place
  /\ \A e \in Range(t.look) \cup Range(t.disc) \cup Range(t.known) :
        /\ e.pend # {}                                       \* waits for someone that has not been reported gone
        /\ \A p \in e.pend : \E q \in t.prov : q[1] = p.who
  /\ (t.acc # NoRequests => t.dl)                            \* what is accumulated has a timer
  /\ (t.gone => HeldIds(t) = <<>>)
=============================================================================
