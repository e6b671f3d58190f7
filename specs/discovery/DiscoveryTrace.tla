--------------------------- MODULE DiscoveryTrace ---------------------------
(* Executions of the real casual-domain-discovery are behaviours of Discovery. *)
EXTENDS Discovery, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

(* configurations of the scripts, by their text *)
Routes(w) == CASE w = "none" -> << >> [] w = "a=x,y" -> ("a" :> {"x", "y"}) [] w = "b=x" -> ("b" :> {"x"})
               [] w = "a=x" -> ("a" :> {"x"}) [] OTHER -> << >>
RoutesOf(ws) == FoldLeft(LAMBDA f, w : Routes(w) @@ f, << >>, ws)
Abilities == {"d", "l", "k", "t"}
AbilityText(S) == Join(<<"d", "l", "k", "t">>, S)
ByAbility == [w \in {AbilityText(S) : S \in SUBSET Abilities} |-> CHOOSE S \in SUBSET Abilities : AbilityText(S) = w]
Words(w) ==
  CASE w[1] = "register" -> <<w[1], w[2], ByAbility[w[3]]>>
    [] w[1] = "request" -> <<w[1], w[2], w[3], w[4], ByText[w[5]]>>
    [] w[1] = "api" -> <<w[1], w[2], w[3], ByText[w[4]]>>
    [] w[1] \in {"lookedup", "discovered", "knows", "direct"} -> <<w[1], w[2], ByText[w[3]]>>
    [] w[1] = "implicit" -> <<w[1], w[2], DomainsByText[w[3]]>>
    [] w[1] \in {"config", "boot"} -> <<w[1], RoutesOf(Tail(w))>>
    [] OTHER -> w
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
Same(a, b) == Len(a) = Len(b) /\ \A r \in Range(a) \cup Range(b) : Count(a, r) = Count(b, r)

Moves(from) == \E t \in {IF Ev.ok THEN After(from, Words(Ev.w)) ELSE [from EXCEPT !.rows = <<>>]} :
   /\ Same(t.rows, Ev.out)
   /\ t.gone = Ev.gone
   /\ s' = [t EXCEPT !.rows = <<>>]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0
TBoot == Ev.e = "boot" /\ Moves(Init0)
TStep == Ev.e = "step" /\ Moves(s)
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
