-------------------------- MODULE TransportTrace --------------------------
(* Executions of the real transport are behaviours of Transport. *)
EXTENDS Transport, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0
TBoot == Ev.e = "boot" /\ s' = Init0
TStep == /\ Ev.e = "step"
         /\ Left(s, Ev.w, Ev.pend)
         /\ \E t \in After(s, Ev.w, Ev.out, Ev.pend) : s' = t
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
