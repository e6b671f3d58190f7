------------------------------ MODULE DomainGen ------------------------------
(* Random behaviours of Domain, as scripts (used with -simulate).             *)
EXTENDS Domain, Json, Randomization

CONSTANTS Kinds, Length

VARIABLES s, n, out, id, tried, done
vars == << s, n, out, id, tried, done>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
The(S) == CHOOSE x \in S : TRUE
W(a, b) == [txt |-> Cat(a), w |-> b]
I == ToString(id)

(* groups of which some depend on others, in any order *)
G(x, d) == [name |-> x, deps |-> d]
Some == << << G("A", {}) >>,
           << G("A", {}), G("B", {"A"}) >>, << G("B", {"A"}), G("A", {}) >>,
           << G("C", {"B"}), G("B", {"A"}), G("A", {}) >>, << G("X", {}), G("A", {"C"}), G("B", {}), G("C", {}) >>,
           << G("B", {"A"}), G("C", {"A"}), G("A", {}) >>, << G("A", {"C"}), G("B", {"A", "C"}), G("C", {}) >>,
           << G("A", {}), G("C", {"A", "B"}), G("B", {}) >> >>
TextG(g) == g.name \o (IF g.deps = {} THEN "" ELSE ":" \o FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "+" \o b, "", SetToSeq(g.deps)))
TextE(e) == e.alias \o ":" \o ToString(e.n) \o ":" \o (IF e.restart THEN "1" ELSE "0") \o ":" \o e.group
Ent(i, gs) == LET server == i <= 3 IN
  [alias |-> IF server THEN "s" \o ToString(i) ELSE "e" \o ToString(i - 3), server |-> server,
   n |-> Pick(<<0, 1, 1, 2, 2, 3>>), restart |-> RandomElement(BOOLEAN), group |-> Pick(gs).name]

Up == s.up
Idle == {p \in Up : p \notin tried}
Unheld == Up \ s.held
Aliases == {s.ents[k].alias : k \in DOMAIN s.ents}
Index(a) == CHOOSE k \in DOMAIN s.ents : s.ents[k].alias = a
Servers == {p \in Idle : \E x \in Holder(s, p) : s.ents[x[1]].server}
Asked == UNION {{Last(s.tasks[1].re[k].procs) : k \in {x \in Units(s) : s.tasks[1].re[x].procs # <<>>}}}
Can(k) == CASE k = "single" -> Servers # {}
            [] k \in {"kill", "lookup"} -> Up # {}
            [] k = "connect" -> Servers # {}
            [] k = "stray" -> Idle \ Servers # {}
            [] k = "hold" -> Unheld # {}
            [] k \in {"release"} -> s.held # {}
            [] k = "reap" -> \E p \in Up : \E x \in Holder(s, p) : ~s.ents[x[1]].inst[x[2]].want
            [] k \in {"scale", "restart"} -> Len(s.tasks) < 7
            [] k = "replace" -> Asked # {}
            [] OTHER -> TRUE
Word(k) ==
  CASE k \in {"connect"} -> The({W(<<k, P(p), "-">>, <<k, p, FALSE>>) : p \in {RandomElement(Servers)}})
    [] k = "single" -> The({W(<<"connect", P(p), "x">>, <<"connect", p, TRUE>>) : p \in {RandomElement(Servers)}})
    [] k = "stray" -> The({W(<<"connect", P(p), IF x THEN "x" ELSE "-">>, <<"connect", p, x>>) : p \in {RandomElement(Idle \ Servers)}, x \in {RR(1, 4) = 1}})
    [] k = "kill" -> The({W(<<k, P(p)>>, <<k, p>>) : p \in {RandomElement(Up)}})
    [] k = "reap" -> The({W(<<"kill", P(p)>>, <<"kill", p>>) : p \in {RandomElement({p \in Up : \E x \in Holder(s, p) : ~s.ents[x[1]].inst[x[2]].want})}})
    [] k = "hold" -> The({W(<<k, P(p)>>, <<k, p>>) : p \in {RandomElement(Unheld)}})
    [] k = "release" -> The({W(<<k, P(p)>>, <<k, p>>) : p \in {RandomElement(s.held)}})
    [] k = "scale" -> The({W(<<k, I, Join(SetToSeq({x[1] \o "=" \o ToString(x[2]) : x \in to}))>>, <<k, I, {<<Index(x[1]), x[2]>> : x \in to}>>)
                           : to \in {{<<a, Pick(<<0, 1, 1, 2, 3>>)>> : a \in RandomSubset(IF Cardinality(Aliases) > 1 /\ RR(1, 3) = 1 THEN 2 ELSE 1, Aliases)}}})
    [] k = "restart" -> The({W(<<k, I, Join(SetToSeq(to))>>, <<k, I, {Index(x) : x \in to}>>) : to \in {RandomSubset(IF Cardinality(Aliases) > 1 /\ RR(1, 2) = 1 THEN 2 ELSE 1, Aliases)}})
    [] k = "replace" -> The({W(<<"kill", P(p)>>, <<"kill", p>>) : p \in {RandomElement(Asked)}})
    [] k = "lookup" -> The({W(<<k, I, r, P(p), d>>, <<k, I, r, p, d = "direct">>) : r \in {Pick(<<"r1", "r2">>)}, p \in {RandomElement(Up)}, d \in {Pick(<<"direct", "wait">>)}})
    [] k = "find" -> The({W(<<"lookup", I, r, "x", d>>, <<"lookup", I, r, 0, d = "direct">>) : r \in {Pick(<<"r1", "r2">>)}, d \in {Pick(<<"direct", "wait">>)}})
    [] OTHER -> W(<<"shutdown">>, <<"shutdown">>)

Init == /\ n = 0 /\ id = 1 /\ tried = {} /\ done = FALSE
        /\ \E gs \in {Pick(Some)} : \E es \in {[i \in 1..6 |-> Ent(i, gs)]} : \E use \in {RandomSubset(RR(2, 4), 1..6)} :
             LET q == SelectSeq([i \in 1..6 |-> <<i, es[i]>>], LAMBDA x : x[1] \in use)
                 ents == [i \in DOMAIN q |-> q[i][2]]
             IN /\ s \in Boot(gs, ents)
                /\ out = <<"boot " \o Join([i \in DOMAIN gs |-> TextG(gs[i])]) \o " " \o Join([i \in DOMAIN ents |-> TextE(ents[i])])>>
First(ks) == LET can == {i \in DOMAIN ks : Can(ks[i])} IN IF can = {} THEN "find" ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]
Next == \/ /\ n < Length /\ ~s.gone /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..8 |-> Pick(Kinds)]} :
              \E k \in {IF n + 12 = Length THEN "shutdown"
                        ELSE IF n + 12 > Length /\ RR(1, 4) > 1 THEN First(<<"reap", "release">> \o ks) ELSE First(ks)} :
              \E x \in {Word(k)} :
                 /\ out' = Append(out, x.txt) /\ s' \in After(s, x.w) /\ id' = id + 1
                 /\ tried' = IF x.w[1] = "connect" THEN tried \cup {x.w[2]} ELSE tried
        \/ /\ (n = Length \/ s.gone) /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out)>>)
           /\ UNCHANGED << s, n, out, id, tried>>
Spec == Init /\ [][Next]_vars
=============================================================================
