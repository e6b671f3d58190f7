--------------------------- MODULE TransportGen ---------------------------
(* Random behaviours of Transport, as scripts (used with -simulate).        *)
EXTENDS Transport, Json

CONSTANTS Kinds, Length, MaxDev, Sizes

(* met: <<device, correlation>> that have been discarded, or that several messages have *)
VARIABLES s, n, out, id, done, busy, met
vars == << s, n, out, id, done, busy, met>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN ToString(b) ELSE a \o " " \o ToString(b), "", q)
Init == s = Init0 /\ out = <<"boot">> /\ n = 0 /\ id = 1 /\ done = FALSE /\ busy = 0 /\ met = {}

(* mostly the one that is filled at the moment *)
Dev(z) == IF busy \in s.up \cup s.gone /\ RR(1, 3) > 1 THEN busy ELSE RandomElement(s.up \cup s.gone)
Live(z) == IF busy \in s.up /\ RR(1, 3) > 1 THEN busy ELSE RandomElement(s.up)
Fresh == Cardinality(s.up \cup s.gone) + 1
All(r) == UNION {{m.id : m \in Range(s.q[k])} : k \in Keys(s, r)}
AnId(r) == IF All(r) # {} /\ RR(1, 5) > 1 THEN RandomElement(All(r)) ELSE IF RR(1, 2) = 1 THEN id ELSE RR(1, id)
Of(k) == {m.id : m \in Range(s.q[k])}
Twins == UNION {{<<k[1], k[2], m>> : m \in {m \in Range(s.q[k]) : m.id \notin Of(<<3 - k[1], k[2]>> ) /\ <<k[2], m.id>> \notin met}} :
                k \in {k \in DOMAIN s.q : k[1] \in {1, 2} /\ <<3 - k[1], k[2]>> \in DOMAIN s.q}}
Waiter == {x \in {1, 2} : Towards(s, x) # {}}
X(z) == RR(1, 2)

Can(k) == CASE k = "open" -> Fresh <= MaxDev
            [] k \in {"pump", "batch"} -> Waiter # {}
            [] k = "fail" -> Waiter # {}
            [] k = "twin" -> Twins # {}
            [] k \in {"close", "crash"} -> Cardinality(s.up) > 1
            [] k \in {"send", "nsend"} -> s.up # {}
            [] OTHER -> s.up # {}

Words(k) ==
  CASE k = "open" -> <<k, Fresh>>
    [] k \in {"close", "crash"} -> <<k, Live(0)>>
    [] k = "twin" -> \* the correlation of another message, of another type, from the other sender
         CHOOSE w \in {<<k2, 3 - t[1], t[2], t[3].id, (t[3].type % 3) + 1, z, "-">> : k2 \in {"send"}, t \in {RandomElement(Twins)}, z \in {Pick(Sizes)}} : TRUE
    [] k = "send" -> <<k, X(0), Dev(0), id, RR(1, 3), Pick(Sizes)>> \o
                     (CASE Pick(<<1, 2, 2, 3>>) = 1 -> <<"-">> [] RR(1, 2) = 1 -> <<"n">> [] OTHER -> <<"x", Dev(0), id + 1, RR(1, 3), Pick(Sizes)>>)
    [] k = "nsend" -> <<k, Dev(0), id, RR(1, 3), Pick(Sizes)>>
    [] k \in {"pump", "batch"} -> <<k, RandomElement(Waiter)>>
    [] k = "fail" -> \* (bound)
         LET x == CHOOSE y \in {RandomElement(Waiter)} : TRUE IN <<k, x, RandomElement(UNION {Towards(s, y) : y \in Waiter})>>
    [] k = "rtype" -> <<k, Live(0), RR(1, 3)>>
    [] k \in {"rtypes", "ctypes"} -> <<k, Live(0), RR(1, 3), RR(1, 3)>>
    [] k = "discard" -> CHOOSE w \in {<<k, p[1], IF p \in met THEN id ELSE p[2]>> : p \in {<<r, AnId(r)>> : r \in {Live(0)}}} : TRUE
    [] k = "rcorr" -> CHOOSE w \in {<<k, r, AnId(r)>> : r \in {Live(0)}} : TRUE
    [] k = "rboth" -> CHOOSE w \in {<<k, r, AnId(r), RR(1, 3)>> : r \in {Live(0)}} : TRUE
    [] k = "push" -> <<k, Live(0), id + 1, RR(1, 3), Pick(Sizes)>>
    [] OTHER -> <<k, Live(0)>>

(* a guess: what the devices take *)
Parts(m) == 1 + m.size \div 8144
Inside(t, r) == FoldLeft(LAMBDA a, k : a + FoldLeft(LAMBDA b, m : b + Parts(m), 0, Arrived(t, k)), 0, SetToSeq(Keys(t, r)))
RECURSIVE Guess(_, _, _)
Guess(t, x, rs) == IF rs = <<>> THEN t
                   ELSE LET r == Head(rs)
                        IN IF P(t, x, r) > 0 /\ r \in t.up /\ Inside(t, r) + Parts(Waiting(t, x, r)[1]) <= 11
                           THEN Guess([t EXCEPT !.p = Put(@, <<x, r>>, P(t, x, r) - 1)], x, rs) ELSE Guess(t, x, Tail(rs))
Did(t, x, T, F) ==
  LET rows == Callbacks(t, x, T, F)
      e == CHOOSE e \in Explained(t, x, rows, T, F) : TRUE
      u == Guess(e[1], x, SetToSeq(e[2] \ F))
      v == Tried(u, x, e[2], F, LET bad == {r \in e[2] : Bad(u, r, F)} IN
                 FoldLeft(LAMBDA a, r : a + IF r \in bad THEN Len(SelectSeq(Waiting(u, x, r), LAMBDA m : ~Must(u, r, m))) ELSE P(u, x, r), 0, SetToSeq(Towards(u, x))))
  IN CHOOSE w \in v : TRUE
Taking(t, r, ok(_)) == LET c == Candidates(t, r, ok) IN IF c = {} THEN CHOOSE u \in Receive(t, r, ok, <<"none", r>>) : TRUE ELSE LET a == CHOOSE a \in c : TRUE IN Taken(t, a[1], a[2])
Sent(w) == CASE w[1] = "send" -> Did(Push(s, w[2], w[3], Message(w[4], w[5], w[6], w[7], Then(SubSeq(w, 7, Len(w))), FALSE)), w[2], {w[3]}, {})
             [] w[1] \in {"pump", "batch"} -> Did(s, w[2], Towards(s, w[2]), {})
             [] w[1] = "fail" -> Did(s, w[2], {w[3]}, {w[3]})
             [] w[1] = "nsend" -> IF w[2] \in s.up /\ Inside(s, w[2]) + 1 + w[5] \div 8144 <= 11 THEN CHOOSE t \in After(s, w, << <<"sent", "yes">> >>, <<>>) : TRUE ELSE s
             [] w[1] = "recv" -> Taking(s, w[2], LAMBDA m : TRUE)
             [] w[1] = "rtype" -> Taking(s, w[2], LAMBDA m : m.type = w[3])
             [] w[1] = "rtypes" -> Taking(s, w[2], LAMBDA m : m.type \in {w[3], w[4]})
             [] w[1] = "rcorr" -> Taking(s, w[2], LAMBDA m : m.id = w[3])
             [] w[1] = "rboth" -> Taking(s, w[2], LAMBDA m : m.id = w[3] /\ m.type = w[4])
             [] w[1] \in {"cached", "ctypes"} -> s
             [] OTHER -> CHOOSE t \in After(s, w, <<>>, <<>>) : TRUE

Next == \/ /\ n < Length /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..4 |-> Pick(Kinds)]} :
                LET can == {i \in 1..4 : Can(ks[i])}
                IN \E k \in {IF s.up = {} THEN "open" ELSE IF can = {} THEN "recv" ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]} :
                   \E w \in {Words(k)} :
                      /\ out' = Append(out, Cat(w)) /\ s' = Sent(w)
                      /\ id' = IF k \in {"send", "nsend", "push"} THEN id + 2 ELSE id
                      /\ met' = CASE k = "discard" -> met \cup {<<w[2], w[3]>>} [] k = "twin" -> met \cup {<<w[3], w[4]>>} [] OTHER -> met
                      /\ busy' = IF RR(1, 12) = 1 THEN RandomElement(s.up \cup {1}) ELSE busy
        \/ /\ n = Length /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out \o <<"settle">>)>>)
           /\ UNCHANGED << s, n, out, id, busy, met>>
Spec == Init /\ [][Next]_vars
=============================================================================
