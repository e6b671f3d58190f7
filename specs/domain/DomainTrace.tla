----------------------------- MODULE DomainTrace -----------------------------
(* Executions of the real casual-domain-manager are behaviours of Domain.     *)
EXTENDS Domain, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Number(w) == CHOOSE n \in 0..20 : ToString(n) = w
Pid == [w \in {P(n) : n \in 1..150} |-> CHOOSE n \in 1..150 : P(n) = w]
(* what a group depends on: at most two *)
Deps(g, all) == IF Len(g) < 2 THEN {} ELSE {a \in all : g[2] = a \/ \E b \in all : g[2] \in {a \o "+" \o b, b \o "+" \o a}}
GroupsOf(q) == [i \in DOMAIN q |-> [name |-> q[i][1], deps |-> Deps(q[i], {q[j][1] : j \in DOMAIN q})]]
Servers == {"s" \o ToString(i) : i \in 1..9}
EntsOf(q) == [i \in DOMAIN q |-> [alias |-> q[i][1], server |-> q[i][1] \in Servers, n |-> Number(q[i][2]), restart |-> q[i][3] = "1", group |-> q[i][4]]]
ScaleOf(t, q) == {<<k, n>> \in (DOMAIN t.ents) \X (0..20) : \E i \in DOMAIN q : q[i][1] = t.ents[k].alias /\ n = Number(q[i][2])}
Words(t, w) ==
  CASE w[1] = "connect" -> <<w[1], Pid[w[2]], w[3] = "x">>
    [] w[1] \in {"kill", "hold", "release"} -> <<w[1], Pid[w[2]]>>
    [] w[1] = "scale" -> <<w[1], w[2], ScaleOf(t, Ev.parts[2])>>
    [] w[1] = "restart" -> <<w[1], w[2], {k \in DOMAIN t.ents : \E i \in DOMAIN Ev.parts[2] : Ev.parts[2][i][1] = t.ents[k].alias}>>
    [] w[1] = "lookup" -> <<w[1], w[2], w[3], IF w[4] = "x" THEN 0 ELSE Pid[w[4]], w[5] = "direct">>
    [] OTHER -> w
Same(a, b) == Range(a) = Range(b)
Moves(ts) == \E t \in ts : Same(t.rows, Ev.out) /\ t.gone = Ev.gone /\ s' = [t EXCEPT !.rows = <<>>]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = <<>>
TBoot == Ev.e = "boot" /\ Moves(Boot(GroupsOf(Ev.parts[1]), EntsOf(Ev.parts[2])))
TStep == Ev.e = "step" /\ Moves(IF Ev.ok THEN After(s, Words(s, Ev.w)) ELSE {[s EXCEPT !.rows = <<>>]})
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == s = <<>> \/ TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
