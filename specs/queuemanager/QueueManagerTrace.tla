------------------------- MODULE QueueManagerTrace -------------------------
(* Executions of the real casual-queue-manager are behaviours of QueueManager. *)
EXTENDS QueueManager, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Items == {n \o x : n \in Range(Names), x \in {"", "+e", "+d"}}
Item == [i \in Items |-> CHOOSE r \in [name : Range(Names), en : BOOLEAN, de : BOOLEAN] :
                            (r.en \/ r.de) /\ i = r.name \o (IF r.en /\ r.de THEN "" ELSE IF r.en THEN "+e" ELSE "+d")]
ByText == [w \in {Text(S) : S \in SUBSET Range(Names)} |-> CHOOSE S \in SUBSET Range(Names) : Text(S) = w]
(* at most two are added at a time *)
Adds == [w \in {"-"} \cup Items \cup {a \o "," \o b : a \in Items, b \in Items} |->
           IF w = "-" THEN {} ELSE IF w \in Items THEN {Item[w]} ELSE LET p == CHOOSE x \in Items \X Items : w = x[1] \o "," \o x[2] IN {Item[p[1]], Item[p[2]]}]
Number(w) == CHOOSE n \in 0..20 : ToString(n) = w
Words(w) ==
  CASE w[1] = "advertise" -> <<w[1], w[2], Number(w[3]), Adds[w[4]], ByText[w[5]]>>
    [] w[1] = "instance" -> <<w[1], w[2], Number(w[3])>>
    [] w[1] = "find" -> <<w[1], w[2], w[3], w[4], ByText[w[5]]>>
    [] OTHER -> w
Is(spec, real) == Len(spec) = Len(real) /\ \A i \in DOMAIN spec :
   IF spec[1] \in {"reply", "found"} /\ i = 4 THEN real[i] \in spec[i] ELSE spec[i] = real[i]
Same(a, b) == Len(a) = Len(b) /\ (\A i \in DOMAIN a : \E j \in DOMAIN b : Is(a[i], b[j])) /\ (\A j \in DOMAIN b : \E i \in DOMAIN a : Is(a[i], b[j]))

Moves(from) == \E t \in {IF Ev.ok THEN After(from, Words(Ev.w)) ELSE [from EXCEPT !.rows = <<>>]} :
   /\ Same(t.rows, Ev.out)
   /\ t.gone = Ev.gone
   /\ s' = [t EXCEPT !.rows = <<>>]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0
TBoot == Ev.e = "boot" /\ Moves(Init0)
TStep == Ev.e = "step" /\ Moves(s)
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
