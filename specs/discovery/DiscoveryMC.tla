---------------------------- MODULE DiscoveryMC ----------------------------
(* Every behaviour of Discovery, with few providers and requests.             *)
EXTENDS Discovery

CONSTANTS Ids, Wants, Has_, Provs, MaxSteps, Routes0
VARIABLES s, n, told, given
vars == << s, n, told, given>>
(* told: what the requests have been answered, given: what has been provided while they waited *)

Ids_(t) == Range(HeldIds(t))
Labels(q) == UNION {{p.label : p \in e.pend} : e \in Range(q)}
Moves ==
  { <<"request", i, "r1", d, C>> : i \in Ids \ DOMAIN told, d \in {"local", "forward"}, C \in Wants}
  \cup { <<"api", i, "r1", C>> : i \in Ids \ DOMAIN told, C \in Wants}
  \cup { <<"lookedup", L, C>> : L \in Labels(s.look), C \in Has_}
  \cup { <<"discovered", L, C>> : L \in Labels(s.disc), C \in Has_}
  \cup { <<"knows", L, C>> : L \in Labels(s.known), C \in Has_}
  \cup { <<"gone", p[1]>> : p \in s.prov} \cup { <<"vanish", p[1]>> : p \in {q \in s.prov : q[1] \in s.up}}
  \cup (IF s.lvl = "running" THEN { <<"shutdown">>} \cup (IF s.acc.dir = <<>> THEN { <<"direct", "r2", {}>>} ELSE {}) ELSE {})
  \cup (IF s.dl THEN { <<"timeout">>} ELSE {})

Start == [Init0 EXCEPT !.routes = Routes0, !.prov = Provs, !.up = {p[1] : p \in Provs}]
Answers(t) == SelectSeq(t.rows, LAMBDA r : r[1] = "answer")
Init == s = Start /\ n = 0 /\ told = << >> /\ given = {}
Next == /\ n < MaxSteps /\ ~s.gone /\ n' = n + 1
        /\ \E w \in Moves : \E t \in {After(s, w)} :
             /\ s' = t
             /\ given' = given \cup (IF w[1] \in {"lookedup", "discovered"} THEN w[3] \cup Offered(s, w[3]) ELSE {})
             /\ told' = LET new == (IF w[1] \in {"request", "api"} THEN (w[2] :> <<>>) ELSE << >>)
                            all == new @@ told
                        IN [i \in DOMAIN all |-> all[i] \o [k \in DOMAIN SelectSeq(Answers(t), LAMBDA r : r[3] = i) |-> SelectSeq(Answers(t), LAMBDA r : r[3] = i)[k][4]]]
Spec == Init /\ [][Next]_vars

Inv == TypeInv(s)
Once == \A i \in DOMAIN told : Len(told[i]) = (IF i \in Ids_(s) THEN 0 ELSE 1)      \* nobody is forgotten, nobody is told twice
True == \A i \in DOMAIN told : told[i] # <<>> => ByText[told[i][1]] \subseteq given
Asks == \A r \in Range(s.rows) : r[1] = "discover" => \E p \in s.prov : p[1] = r[2] /\ "d" \in p[2]
Ends == (s.prov = {} /\ ~s.dl) => HeldIds(s) = <<>>
=============================================================================
