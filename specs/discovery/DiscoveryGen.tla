---------------------------- MODULE DiscoveryGen ----------------------------
(* Random behaviours of Discovery, as scripts (used with -simulate).           *)
EXTENDS Discovery, Json, Randomization

CONSTANTS Kinds, Length

VARIABLES s, n, out, id, lost, done
vars == << s, n, out, id, lost, done>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
Configs == << << <<"none">>, << >> >>, << <<"a=x,y">>, "a" :> {"x", "y"}>>, << <<"b=">>, << >> >>, << <<"a=x,y", "c=">>, "a" :> {"x", "y"}>>, << <<"b=x", "a=">>, "b" :> {"x"}>>, << <<"a=x", "b=">>, "a" :> {"x"}>> >>
Some(max) == Pick(<< {}, RandomSubset(1, Range(Names)), RandomSubset(1, Range(Names)), RandomSubset(2, Range(Names)), RandomSubset(max, Range(Names))>>)
(* what a provider that is asked for C has *)
Part(C) == IF C = {} THEN {} ELSE Pick(<< {}, C, C, RandomSubset(RR(0, Cardinality(C)), C), RandomSubset(RR(0, Cardinality(C)), C)>>)
Providers == {"p1", "p2", "p3"}
Requesters == {"r1", "r2", "r3", "r4"} \ lost
Free == Providers \ ({p[1] : p \in s.prov} \cup lost)
There == {p[1] : p \in s.prov} \cap s.up
Labels(q) == UNION {{p.label : p \in e.pend} : e \in Range(q)}
(* what the entry of the label asks for *)
WantOf(q, x) == LET e == q[CHOOSE i \in Of(q, x) : TRUE] IN IF e.kind \in {"agg"} THEN e.want ELSE IF e.kind \in {"local", "forward"} THEN e.r.c ELSE Range(Names)
Late == UNION {{p.label : p \in e.dead} : e \in Range(s.disc)}

Can(k) == CASE k = "register" -> Free # {}
            [] k = "lookedup" -> s.look # <<>>
            [] k = "discovered" -> s.disc # <<>>
            [] k = "late" -> Late # {}
            [] k = "knows" -> s.known # <<>>
            [] k \in {"request", "api", "rediscover", "direct", "implicit", "vanishr"} -> Cardinality(Requesters) > 1
            [] k = "timeout" -> s.dl \/ RR(1, 5) = 1
            [] k \in {"vanish", "gone"} -> There # {}
            [] k = "notice" -> {p[1] : p \in s.prov} \ s.up # {}
            [] OTHER -> TRUE
W(a, b) == [txt |-> Cat(a), w |-> b]
Words(k) ==
  CASE k = "register" -> CHOOSE x \in {W(<<k, p, Join(<<"d", "l", "k", "t">>, A)>>, <<k, p, A>>) : p \in {RandomElement(Free)}, A \in {Pick(<< {"d"}, {"d", "t"}, {"l", "k"}, {"d", "l", "k"}, {"d", "l", "k", "t"}, {"l", "k", "d"}, {"k", "d"} >>)}} : TRUE
    [] k = "request" -> CHOOSE x \in {W(<<k, ToString(id), r, d, Text(C)>>, <<k, ToString(id), r, d, C>>) : r \in {RandomElement(Requesters)}, d \in {Pick(<<"local", "forward", "forward", "forward">>)}, C \in {Some(3)}} : TRUE
    [] k = "api" -> CHOOSE x \in {W(<<k, ToString(id), r, Text(C)>>, <<k, ToString(id), r, C>>) : r \in {RandomElement(Requesters)}, C \in {Some(3)}} : TRUE
    [] k = "rediscover" -> CHOOSE x \in {W(<<k, ToString(id), r>>, <<k, ToString(id), r>>) : r \in {RandomElement(Requesters)}} : TRUE
    [] k = "late" -> CHOOSE x \in {W(<<"discovered", L, Text(C)>>, <<"discovered", L, C>>) : L \in {RandomElement(Late)}, C \in {Some(3)}} : TRUE
    [] k = "direct" -> CHOOSE x \in {W(<<k, r, Text(C)>>, <<k, r, C>>) : r \in {RandomElement(Requesters)}, C \in {Some(2)}} : TRUE
    [] k = "implicit" -> CHOOSE x \in {W(<<k, r, Join(Domains, D)>>, <<k, r, D>>) : r \in {RandomElement(Requesters)}, D \in {Pick(<< {"d1"}, {"d2"}, {"d1", "d3"}, {"d1", "vf"}, {"d2", "d3"} >>)}} : TRUE
    [] k = "vanish" -> CHOOSE x \in {W(<<k, p>>, <<k, p>>) : p \in {RandomElement(There)}} : TRUE
    [] k = "vanishr" -> CHOOSE x \in {W(<<"vanish", r>>, <<"vanish", r>>) : r \in {RandomElement(Requesters)}} : TRUE
    [] k = "gone" -> CHOOSE x \in {W(<<k, p, h>>, <<k, p, h>>) : p \in {RandomElement(There)}, h \in {Pick(<<"ipc", "exit">>)}} : TRUE
    [] k = "notice" -> CHOOSE x \in {W(<<"gone", p, h>>, <<"gone", p, h>>) : p \in {RandomElement({q[1] : q \in s.prov} \ s.up)}, h \in {Pick(<<"ipc", "exit">>)}} : TRUE
    [] k = "config" -> CHOOSE x \in {W(<<k>> \o c[1], <<k, c[2]>>) : c \in {Pick(Configs)}} : TRUE
    [] OTHER -> W(<<k>>, <<k>>)
(* answers: the content depends on the label *)
Reply(k, q) ==
  CHOOSE x \in UNION {{W(<<k, L, Text(C)>>, <<k, L, C>>) : C \in {IF RR(1, 6) = 1 THEN Some(3) ELSE Part(IF k = "knows" THEN RandomSubset(2, Range(Names)) ELSE WantOf(q, L))}} : L \in {RandomElement(Labels(q))}} : TRUE
Word(k) == CASE k = "lookedup" -> Reply(k, s.look) [] k = "discovered" -> Reply(k, s.disc) [] k = "knows" -> Reply(k, s.known) [] OTHER -> Words(k)

Init == \E c \in {Pick(Configs)} :
  /\ out = <<Cat(<<"boot">> \o c[1])>> /\ s = After(Init0, <<"boot", c[2]>>)
  /\ n = 0 /\ id = 1 /\ lost = {} /\ done = FALSE
First(ks) == LET can == {i \in DOMAIN ks : Can(ks[i])} IN IF can = {} THEN "timeout" ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]
Tail_ == <<"discovered", "lookedup", "knows", "notice", "timeout">>
Next == \/ /\ n < Length /\ ~s.gone /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..6 |-> Pick(Kinds)]} :
              \E k \in {IF n < 2 THEN "register" ELSE IF n + 14 = Length THEN "shutdown" ELSE IF n + 12 > Length THEN First(Tail_) ELSE First(ks)} :
              \E x \in {Word(k)} :
                 /\ out' = Append(out, x.txt) /\ s' = After(s, x.w) /\ id' = id + 1
                 /\ lost' = IF k \in {"vanish", "vanishr"} THEN lost \cup {x.w[2]} ELSE IF k = "notice" THEN lost \ {x.w[2]} ELSE lost
        \/ /\ (n = Length \/ s.gone) /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out)>>)
           /\ UNCHANGED << s, n, out, id, lost>>
Spec == Init /\ [][Next]_vars
=============================================================================
