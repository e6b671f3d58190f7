------------------------------ MODULE DomainMC ------------------------------
(* Every behaviour of Domain, with few groups, entities and instances.        *)
EXTENDS Domain

CONSTANTS MaxSteps, MaxProcesses
VARIABLES s, n, deps
vars == << s, n, deps>>

G(x, d) == [name |-> x, deps |-> d]
E(a, k, r, g) == [alias |-> a, server |-> a = "s", n |-> k, restart |-> r, group |-> g]
Boots == {<<gs, <<E("s", k, r, g), E("e", 1, q, h)>> >> :
            gs \in {<<G("B", {"A"}), G("A", {})>>, <<G("A", {}), G("B", {})>>}, k \in {0, 1, 2}, r, q \in BOOLEAN, g, h \in {"A", "B"}}
Moves ==
  { <<"connect", p, x>> : p \in {q \in s.up : \E y \in Holder(s, q) : s.ents[y[1]].server /\ ~s.ents[y[1]].inst[y[2]].conn}, x \in BOOLEAN}
  \cup { <<"kill", p>> : p \in s.up} \cup { <<"hold", p>> : p \in s.up \ s.held} \cup { <<"release", p>> : p \in s.held}
  \cup (IF Len(s.tasks) < 4 /\ s.lvl # "shutdown" THEN {<<"scale", ToString(n), {<<1, k>>}>> : k \in {0, 2}} \cup {<<"scale", ToString(n), {<<1, 1>>, <<2, 1>>}>>} ELSE {})
  \cup (IF Len(s.tasks) < 4 /\ s.lvl # "shutdown" THEN {<<"restart", ToString(n), ks>> : ks \in {{1}, {1, 2}}} ELSE {})
  \cup { <<"lookup", ToString(n), "r", p, FALSE>> : p \in s.up \cup {0}}
  \cup (IF s.lvl # "shutdown" THEN {<<"shutdown">>} ELSE {})
Init == \E b \in Boots : s \in Boot(b[1], b[2]) /\ n = 0 /\ deps = b[1]
Next == /\ n < MaxSteps /\ ~s.gone /\ s.next <= MaxProcesses /\ n' = n + 1 /\ deps' = deps
        /\ \E w \in Moves : s' \in After(s, w)
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s)
(* who gets started, has those it depends on in place *)
Pos(name) == CHOOSE i \in DOMAIN s.groups : s.groups[i] = name
Sorted == \A i \in DOMAIN deps : \A d \in deps[i].deps : Pos(d) < Pos(deps[i].name)
(* nothing that has been asked for is forgotten: either there's a task, or everything is as wanted *)
Idle == (s.tasks = <<>> /\ ~s.gone) => \A k \in DOMAIN s.ents : \A i \in Range(s.ents[k].inst) : ~ScaleIn(i) /\ ~ScaleOut(i)
(* nobody is left behind *)
Empty == s.gone => s.up = {}
(* nobody is started when it's about to end *)
Quiet == s.lvl = "shutdown" => \A r \in Range(s.rows) : r[1] # "spawn"
(* at most one is the singleton, and it's alive *)
Single == s.single = 0 \/ s.single \in s.up
(* who waits, waits for something that isn't there *)
Waits == s.lvl = "shutdown" \/ \A l \in Range(s.pend) : ~Whole(s, l)
=============================================================================
