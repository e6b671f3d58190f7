-------------------------- MODULE GatewayInTrace --------------------------
(* Executions of the real inbound group are behaviours of GatewayIn. *)
EXTENDS GatewayIn, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Of(q, d) == SelectSeq(q, LAMBDA r : r[1] = d)
Who(q) == {q[i][1] : i \in DOMAIN q}
Lost(q) == Cardinality({i \in DOMAIN q : q[i][2] = "destroyed"})
(* anyone is told in order - unless several connections go at once, in whatever order *)
Agree(a, b) == /\ Who(a) = Who(b)
               /\ \A d \in Who(a) : IF Lost(a) > 1 THEN Bag(Of(a, d)) = Bag(Of(b, d)) ELSE Of(a, d) = Of(b, d)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0
TBoot == Ev.e = "boot" /\ s' = Init0 /\ Ev.out = << <<"gm", "updated">> >>
TStep == /\ Ev.e = "step"
         /\ \E r \in Outcomes(s, Ev.ws) :
            /\ Agree(r.out, Ev.out)
            /\ Ev.gone = (r.s.run = "exited")
            /\ s' = r.s
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
