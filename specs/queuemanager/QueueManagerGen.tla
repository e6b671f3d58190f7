-------------------------- MODULE QueueManagerGen --------------------------
(* Random behaviours of QueueManager, as scripts (used with -simulate).        *)
EXTENDS QueueManager, Json, Randomization

CONSTANTS Kinds, Length

VARIABLES s, n, out, id, lost, ord, asked, done
vars == << s, n, out, id, lost, ord, asked, done>>

RR(i, j) == RandomElement(i..j)
Pick(q) == q[RR(1, Len(q))]
Cat(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", q)
Outs == {"o1", "o2", "o3", "o4", "o5", "o6"}
Num(o) == CHOOSE i \in 1..6 : o = "o" \o ToString(i)
(* the first two that are not lost *)
Some == LET live == Outs \ lost IN IF live = {} THEN {} ELSE {o \in live : Cardinality({x \in live : x = o \/ Num(x) < Num(o)}) <= 2}
Requesters == {"r1", "r2", "r3", "r4", "r5"} \ lost
Free(o) == Range(Names) \ {p.name : p \in {x \in s.q : x.who = o}}
Mine(o) == {p.name : p \in {x \in s.q : x.who = o}}
Mode == <<"", "", "", "+e", "+d">>
ItemText(a) == a.name \o (IF a.en /\ a.de THEN "" ELSE IF a.en THEN "+e" ELSE "+d")
ItemOf(name, m) == [name |-> name, en |-> m # "+d", de |-> m # "+e"]
Waiting == {l.id : l \in Range(s.pend)}
Discoveries == asked \cap Waiting
There == {p.who : p \in {x \in s.q : x.order > 0}} \cap s.up
Can(k) == CASE k \in {"lookup", "find", "known", "vanishr", "goner"} -> Cardinality(Requesters) > 1
            [] k \in {"advertise", "remove", "instance"} -> Some # {}
            [] k = "discard" -> s.pend # <<>>
            [] k = "discovered" -> Discoveries # {}
            [] k = "late" -> asked # {}
            [] k \in {"reset", "gone"} -> There # {}
            [] k = "hold" -> s.groups \ s.held # {}
            [] k = "release" -> s.held # {}
            [] k = "kill" -> s.groups # {}
            [] OTHER -> TRUE
W(a, b) == [txt |-> Cat(a), w |-> b]
The(S) == CHOOSE x \in S : TRUE
I == ToString(id)
Word(k) ==
  CASE k = "lookup" -> The({W(x, x) : x \in { <<k, I, RandomElement(Requesters), Pick(Names)>>
                                                \o Pick(<< <<"direct", "internal">>, <<"wait", "internal">>, <<"direct", "internal">>, <<"wait", "internal">>,
                                                          <<"direct", "external">>, <<"direct", "forward">>, <<"wait", "forward">> >>) \o <<Pick(<<"any", "enqueue", "dequeue">>)>>}})
    [] k = "discard" -> The({W(x, x) : x \in UNION {{ <<k, l.id, l.who>>} : l \in {RandomElement({y \in Range(s.pend) : TRUE})}}})
    [] k = "discovered" -> The({W(x, x) : x \in { <<k, RandomElement(Discoveries)>>}})
    [] k = "late" -> The({W(x, x) : x \in { <<"discovered", RandomElement(asked)>>}})
    [] k = "advertise" -> The(UNION {UNION {{W(<<k, o, ToString(ord[o]), Join(SetToSeq({ItemText(a) : a \in A})), "-">>, <<k, o, ord[o], A, {}>>)
                             : A \in {{ItemOf(x, Pick(Mode)) : x \in N}}} : N \in {IF Free(o) = {} THEN {} ELSE RandomSubset(IF Cardinality(Free(o)) > 1 THEN RR(1, 2) ELSE 1, Free(o))}} : o \in {RandomElement(Some)}})
    [] k = "remove" -> The(UNION {{W(<<"advertise", o, ToString(ord[o]), "-", Text(N)>>, <<"advertise", o, ord[o], {}, N>>)
                             : N \in {IF Mine(o) = {} THEN {} ELSE RandomSubset(1, Mine(o))}} : o \in {RandomElement(Some)}})
    [] k = "instance" -> The(UNION {{W(<<k, o, ToString(r)>>, <<k, o, r>>) : r \in {RR(0, 5)}} : o \in {RandomElement(Some)}})
    [] k = "reset" -> The({W(x, x) : x \in { <<k, RandomElement(There)>>}})
    [] k = "find" -> The({W(<<k, I, r, sc, Text(N)>>, <<k, I, r, sc, N>>) : r \in {RandomElement(Requesters)}, sc \in {Pick(<<"internal", "extended">>)}, N \in {RandomSubset(RR(1, 4), Range(Names))}})
    [] k = "known" -> The({W(x, x) : x \in { <<k, I, RandomElement(Requesters)>>}})
    [] k = "hold" -> The({W(x, x) : x \in { <<k, RandomElement(s.groups \ s.held)>>}})
    [] k = "release" -> The({W(x, x) : x \in { <<k, RandomElement(s.held)>>}})
    [] k = "kill" -> The({W(x, x) : x \in { <<"gone", RandomElement(s.groups), "exit">>}})
    [] k = "gone" -> The({W(x, x) : x \in { <<k, RandomElement(There), Pick(<<"ipc", "exit">>)>>}})
    [] k = "goner" -> The({W(x, x) : x \in { <<"gone", RandomElement(IF Requesters \cap s.up = {} THEN Requesters ELSE Requesters \cap s.up), "exit">>}})
    [] k = "vanishr" -> The({W(x, x) : x \in { <<"vanish", RandomElement(Requesters)>>}})
    [] OTHER -> W(<<k>>, <<k>>)

Init == /\ out = <<"boot">> /\ s = Init0 /\ n = 0 /\ id = 1 /\ lost = {} /\ asked = {} /\ done = FALSE
        /\ \E f \in {[o \in Outs |-> Pick(<<0, 0, 1, 2, 3>>)]} : ord = f
First(ks) == LET can == {i \in DOMAIN ks : Can(ks[i])} IN IF can = {} THEN "reset" ELSE ks[CHOOSE i \in can : \A j \in can : i <= j]
Next == \/ /\ n < Length /\ ~s.gone /\ n' = n + 1 /\ UNCHANGED done
           /\ \E ks \in {[i \in 1..8 |-> Pick(Kinds)]} :
              \E k \in {IF n + 6 = Length THEN (IF s.groups \ s.held # {} /\ RR(1, 3) > 1 THEN "hold" ELSE "lookup") ELSE IF n + 5 = Length THEN "shutdown"
                        ELSE IF n + 5 > Length THEN First(Pick(<< <<"lookup">>, <<"late", "lookup">>, <<"release", "lookup">>, <<"lookup">> >>) \o <<"lookup">>) ELSE First(ks)} :
              \E x \in {IF k = "reset" /\ There = {} THEN W(<<"reset", "o1">>, <<"reset", "o1">>) ELSE Word(k)} :
                 /\ out' = Append(out, x.txt) /\ s' = After(s, x.w) /\ id' = id + 1
                 /\ lost' = IF x.w[1] \in {"vanish", "gone"} THEN lost \cup {x.w[2]} ELSE lost
                 /\ asked' = IF \E r \in Range(s'.rows) : r[1] = "discover" THEN asked \cup {x.w[2]} ELSE asked
                 /\ ord' = IF k = "instance" /\ x.w[2] \in s.remotes THEN [ord EXCEPT ![x.w[2]] = x.w[3]] ELSE ord
        \/ /\ (n = Length \/ s.gone) /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(out)>>)
           /\ UNCHANGED << s, n, out, id, lost, ord, asked>>
Spec == Init /\ [][Next]_vars
=============================================================================
