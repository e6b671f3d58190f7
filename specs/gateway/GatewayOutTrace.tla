-------------------------- MODULE GatewayOutTrace --------------------------
(* Executions of the real outbound group are behaviours of GatewayOut. *)
EXTENDS GatewayOut, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Of(q, d) == SelectSeq(q, LAMBDA r : r[1] = d)
Who(q) == {q[i][1] : i \in DOMAIN q}
(* what is told discovery comes from two devices, in no order; anyone else is told in order *)
Agree(a, b) == /\ Who(a) = Who(b)
               /\ \A d \in Who(a) : IF d = "disc" THEN Bag(Of(a, d)) = Bag(Of(b, d)) ELSE Of(a, d) = Of(b, d)
Told == Without(Ev.out, LAMBDA r : r[1] = "metric")
Measured == SelectSeq(Ev.out, LAMBDA r : r[1] = "metric")
RECURSIVE Less(_, _)
RemoveOne(q, x) == LET i == CHOOSE i \in DOMAIN q : q[i] = x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Less(q, xs) == IF xs = <<>> THEN q ELSE Less(RemoveOne(q, Head(xs)), Tail(xs))
Within(xs, q) == \A x \in Range(xs) : Cardinality({i \in DOMAIN xs : xs[i] = x}) <= Cardinality({i \in DOMAIN q : q[i] = x})

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0(0, 0)
TBoot == Ev.e = "boot" /\ s' = Init0(Ev.n, Ev.order) /\ Ev.out = << <<"gm", "updated">> >>
TStep == /\ Ev.e = "step"
         /\ \E r \in Outcomes(s, Ev.ws) :
            /\ Agree(r.out, Told)
            /\ Ev.gone = (r.s.run = "exited")
            /\ (r.s.run # "exited" => Within(Measured, r.s.owed))
            /\ (Ev.ws[1][1] = "settle" /\ r.s.run # "exited" => Bag(Measured) = Bag(r.s.owed))
            /\ s' = IF r.s.run = "exited" THEN r.s ELSE [r.s EXCEPT !.owed = Less(@, Measured)]
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
