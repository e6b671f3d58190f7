--------------------------- MODULE ForwardTrace ---------------------------
(* Executions of the real casual-queue-forward-group are behaviours of Forward. *)
EXTENDS Forward, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == << tid, l, s>>
Tr == Traces[tid]
Ev == Tr[l]

Count(w) == [f \in Fs |-> CHOOSE n \in 0..9 : ToString(n) = w[f + 1]]
Words(w) == IF w[1] \in {"config", "boot"} THEN <<"config", Count(w)>> ELSE w
IsLookup(r) == r[1] \in {"lookup", "unlookup"}
Plain(rows) == SelectSeq(rows, LAMBDA r : ~IsLookup(r))
Same(a, b) == Len(a) = Len(b) /\ \A r \in Range(a) \cup Range(b) : Len(SelectSeq(a, LAMBDA x : x = r)) = Len(SelectSeq(b, LAMBDA x : x = r))
Reported(t) == Ev.state # <<>> => \A f \in Fs : Ev.state[f][1] = t.cfg[f] /\ Ev.state[f][2] = Run(t, f)

Moves(from) ==
  LET ws == [i \in DOMAIN Ev.ws |-> Words(Ev.ws[i])]
      sent == SelectSeq([i \in DOMAIN ws |-> <<Ev.oks[i], ws[i]>>], LAMBDA p : p[1])
  IN \E t \in After(from, [i \in DOMAIN sent |-> sent[i][2]]) :
        /\ Same(t.rows, Plain(Ev.out))
        /\ Ev.gone = t.gone
        /\ Reported(t)
        /\ s' = Lookups([t EXCEPT !.rows = <<>>], Ev.out)
        /\ \A r \in Range(Ev.out) : IsLookup(r) => r[2] \in Queues /\ (r[1] = "lookup" => r[3] = "wait")
        /\ Looking(s')

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0
TBoot == Ev.e = "boot" /\ Moves(Init0)
TStep == Ev.e = "step" /\ Moves(s)
TEnd == Ev.e = "end" /\ s' = s
Next == l <= Len(Tr) /\ l' = l + 1 /\ tid' = tid /\ (TBoot \/ TStep \/ TEnd)
Spec == Init /\ [][Next]_vars

Consistent == TypeInv(s)
Progress == IF l > TLCGetOrDefault(tid, 0) THEN TLCSet(tid, l) ELSE TRUE
Accepted ==
   /\ TLCGet("distinct") >= 0
   /\ LET bad == { i \in 1..Len(Traces) : TLCGetOrDefault(i, 0) # Len(Traces[i]) + 1}
      IN \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
=============================================================================
