-------------------------- MODULE ApplicationTrace --------------------------
(* Executions of a real process of an application are behaviours of Application. *)
EXTENDS Application, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
(* the resources do not know of each other *)
PerRm(q) == [rm \in {q[i][1] : i \in DOMAIN q} |-> SelectSeq(q, LAMBDA x : x[1] = rm)]
(* the user code is left as it was by cancel and disconnect *)
Same(a, b) == a = b \/ /\ Len(a) = 7 /\ Len(b) = 7 /\ Ev.w[1] = "op" /\ Ev.w[3] \in {"cancel", "discon"} /\ [a EXCEPT ![4] = "0"] = [b EXCEPT ![4] = "0"]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0("client", <<>>, <<>>)
TBoot == /\ Ev.e = "boot"
         /\ LET kind(r) == SubSeq(r, 1, 1)
            IN s' = Init0(Ev.mode, [i \in DOMAIN Ev.fix |-> Ev.fix[i]], [i \in DOMAIN Ev.all |-> Ev.all[i]])
TPlan == Ev.e = "xa" /\ s' = Apply(s, Ev.w).s
TStep == /\ Ev.e \notin {"boot", "xa", "end", "timeout", "died", "skipped", "garbled"}
         /\ \E x \in {Apply(s, Ev.w)} :
            /\ Bag(x.out) = Bag(Ev.out)
            /\ PerRm(x.xa) = PerRm(Ev.xa)
            /\ Same(x.res, Ev.res)
            /\ (x.res # <<>> => Info(x.s) = Ev.info)
            /\ s' = x.s
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TPlan \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
