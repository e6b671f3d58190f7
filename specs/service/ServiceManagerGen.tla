-------------------------- MODULE ServiceManagerGen --------------------------
(* Operation sequences for the real service manager, drawn at random from the *)
(* behaviours of ServiceManager (used with -simulate).                        *)
EXTENDS ServiceManager, Json, Randomization

CONSTANTS Kinds, Length, Services, Routed, Sequentials0, Concurrents0, Callers, Durations, Sems, Reqs, Trans,
          ShortMs       \* deadlines up to this are short ones: they expire while sleeping

VARIABLES s, next, now, n, out, done, leaving, cfg, global, restrict, prepn, late

vars == << s, next, now, n, out, done, leaving, cfg, global, restrict, prepn, late>>

Cat(f) == LET RECURSIVE C(_)  C(i) == IF i > Len(f) THEN "" ELSE f[i] \o (IF i = Len(f) THEN "" ELSE " ") \o C(i + 1) IN C(1)
RECURSIVE Csv(_)
Csv(X) == IF X = {} THEN "" ELSE LET m == SetMin(X) IN S(m) \o (IF X = {m} THEN "" ELSE ",") \o Csv(X \ {m})
Dash(t) == IF t = "" THEN "-" ELSE t
List(X) == Dash(Csv(X))
R(i, j) == RandomElement(i..j)
RoutesOf(m) == {10 * m + 1, 10 * m + 2}
SomeSub(X, k) == LET J == RandomSubset(k, X) IN J

RECURSIVE CfgText(_, _)
CfgText(c, D) == IF D = {} THEN "" ELSE LET m == SetMin(D) IN
   Cat(<< " svc", S(m), S(c[m].dur), Dash(c[m].contract), Dash(c[m].vis), List(c[m].routes)>>) \o CfgText(c, D \ {m})
RECURSIVE SvcText(_, _)
SvcText(c, D) == IF D = {} THEN "" ELSE LET m == SetMin(D) IN
   " svc:" \o S(m) \o ":" \o S(c[m].dur) \o ":" \o Dash(c[m].contract) \o ":" \o Dash(c[m].vis) \o ":" \o List(c[m].routes) \o SvcText(c, D \ {m})
RECURSIVE RestrictText(_, _)
RestrictText(r, D) == IF D = {} THEN "" ELSE LET i == SetMin(D) IN " restrict:" \o S(i) \o ":" \o List(r[i]) \o RestrictText(r, D \ {i})

Contracts == << "", "linger", "kill", "interrupt", "abort">>
Viss == << "", "", "discoverable", "undiscoverable">>

Init ==
   /\ \E c \in {[ m \in SomeSub(Services, R(1, Cardinality(Services))) |->
                    [dur |-> RandomElement(Durations), contract |-> Contracts[R(1, 5)], vis |-> Viss[R(1, 4)],
                     routes |-> IF m \in Routed /\ R(1, 2) = 1 THEN RoutesOf(m) ELSE {}]]},
         d \in {[dur |-> RandomElement(Durations), contract |-> Contracts[R(1, 5)]]},
         r \in {[ i \in (IF R(1, 3) = 1 THEN {RandomElement(Sequentials0 \cup Concurrents0)} ELSE {}) |-> SomeSub(Services, 2)]} :
         /\ cfg = c /\ global = d /\ restrict = r
         /\ s = Empty(c, d)
         /\ out = << "boot " \o S(d.dur) \o " " \o Dash(d.contract) \o SvcText(c, DOMAIN c) \o RestrictText(r, DOMAIN r)>>
   /\ next = 1 /\ now = 1000 /\ n = 0 /\ done = FALSE /\ leaving = {} /\ prepn = 9000 /\ late = {}

T == [lo |-> now, hi |-> now]
Line(t) == out' = Append(out, t)
Keep == UNCHANGED << leaving, prepn>>
Take(F) == \E r \in {RandomElement(F)} : s' = r.s

Names0 == Services \cup UNION { RoutesOf(m) : m \in Routed}
Advertised == { m \in Services : Known(s, m) /\ HasInstances(s, m)}
(* mostly a name that leads somewhere *)
SomeName(z) == LET m == IF Advertised # {} /\ R(1, 6) > 1 THEN RandomElement(Advertised) ELSE RandomElement(Services) IN
               IF Known(s, m) /\ m \in s.routed /\ R(1, 5) > 1 THEN RandomElement(RoutesOf(m)) ELSE m

Busy == { s.inst[i].rsv : i \in DOMAIN s.inst} \ {0}
Restricted(i, X) == IF i \in DOMAIN restrict THEN X \cap restrict[i] ELSE X

GLookup ==
   \E nm \in {SomeName(0)}, sem \in {Sems[R(1, Len(Sems))]}, req \in {Reqs[R(1, Len(Reqs))]}, c \in {RandomElement(Callers \ s.gone)},
      g \in {IF R(1, 2) = 1 THEN 0 ELSE RandomElement(Trans)}, dead \in {IF R(1, 5) = 1 THEN RandomElement(Durations) ELSE 0} :
      LET L == [id |-> next, nm |-> nm, sem |-> sem, req |-> req, g |-> g, c |-> c, dlo |-> IF dead = 0 THEN 0 ELSE now + dead, dhi |-> IF dead = 0 THEN 0 ELSE now + dead] IN
      /\ Line(Cat(<< "lookup", S(next), S(nm), sem, req, S(g), S(c), S(dead)>>))
      /\ Take(Lookup(s, L, T)) /\ next' = next + 1 /\ Keep

GAck == /\ Busy # {}
        /\ \E id \in {RandomElement(Busy)}, tr \in {IF R(1, 3) = 1 THEN 0 ELSE R(1, 4)} :
           LET i == CHOOSE i \in DOMAIN s.inst : s.inst[i].rsv = id IN
           /\ Line(Cat(<< "ack", S(id), S(tr)>>)) /\ Take(Ack(s, i, id, tr, T)) /\ UNCHANGED next /\ Keep
GDie == /\ Busy # {}
        /\ \E id \in {RandomElement(Busy)} :
           LET i == CHOOSE i \in DOMAIN s.inst : s.inst[i].rsv = id IN
           /\ Line("die " \o S(id)) /\ Take(Exit(s, i, T)) /\ leaving' = leaving \ {i} /\ UNCHANGED << next, prepn>>
GExit == /\ DOMAIN s.inst # {}
         /\ \E i \in {RandomElement(DOMAIN s.inst)} :
            /\ Line("exit " \o S(i)) /\ Take(Exit(s, i, T)) /\ leaving' = leaving \ {i} /\ UNCHANGED << next, prepn>>
GDiscard ==
   LET P == { s.pend[k].id : k \in DOMAIN s.pend}
       B == { s.inst[i].rsv : i \in { j \in DOMAIN s.inst : s.inst[j].call}} \ {0}
       X == P \cup B
   IN \E id \in {IF X = {} \/ R(1, 10) = 1 THEN next ELSE RandomElement(X)}, r \in {R(1, 3)} :
      /\ Line(Cat(<< "discard", S(id), IF r = 1 THEN "0" ELSE "1">>)) /\ Take(Discard(s, id, TRUE, T))
      /\ next' = (IF id = next THEN next + 1 ELSE next) /\ Keep
GAdv ==
   LET X == Sequentials0 \ leaving IN
   /\ X # {}
   /\ \E i \in {RandomElement(X)}, a \in {SomeSub(Services, R(0, 2))}, r \in {R(1, 4)} :
      LET mine == IF i \in DOMAIN s.inst THEN s.inst[i].svcs ELSE {}
          del == IF r = 1 /\ mine \ a # {} THEN {RandomElement(mine \ a)} ELSE {}
          add == IF a = {} /\ del = {} THEN {RandomElement(Services)} ELSE a
      IN /\ Line(Cat(<< "adv", S(i), List(add), List(del)>>))
         /\ Take(Advertise(s, i, Restricted(i, add), del, T)) /\ UNCHANGED next /\ Keep
GClear ==
   LET X == { i \in DOMAIN s.inst : s.inst[i].k = "seq" /\ s.inst[i].rsv = 0 /\ ~s.inst[i].dis} \ leaving IN
   /\ X # {}
   /\ \E i \in {RandomElement(X)} : Line("clear " \o S(i)) /\ Take(Clear(s, i, T)) /\ UNCHANGED next /\ Keep
RECURSIVE HopText(_, _)
Hops(i, m) == (i + m) % 2
HopText(i, X) == IF X = {} THEN "" ELSE LET m == SetMin(X) IN S(m) \o ":" \o S(Hops(i, m)) \o (IF X = {m} THEN "" ELSE ",") \o HopText(i, X \ {m})
OrderOf(i) == LET X == { m \in DOMAIN s.svc : i \in DOMAIN s.svc[m].con} IN IF X = {} THEN 1 ELSE s.svc[CHOOSE m \in X : TRUE].con[i][1]
GCAdv ==
   \E i \in {RandomElement(Concurrents0)}, a \in {SomeSub(Services, R(1, 3))}, r \in {R(1, 4)} :
      LET mine == { m \in DOMAIN s.svc : i \in DOMAIN s.svc[m].con}
          del == IF r = 1 /\ mine \ a # {} THEN {RandomElement(mine \ a)} ELSE {}
          order == IF mine = {} THEN 1 + (i % 2) ELSE OrderOf(i)
          X == Restricted(i, a)
      IN /\ Line(Cat(<< "cadv", S(i), S(order), Dash(HopText(i, a)), List(del)>>))
         /\ Take(ConAdvertise(s, i, order, [ m \in X |-> Hops(i, m)], del, T)) /\ UNCHANGED next /\ Keep
Cons == { i \in DOMAIN s.inst : s.inst[i].k = "con"}
GCOrder == Cons # {} /\ \E i \in {RandomElement(Cons)}, o \in {R(1, 3)} :
           Line(Cat(<< "corder", S(i), S(o)>>)) /\ Take(ConOrder(s, i, o)) /\ UNCHANGED next /\ Keep
GCReset == Cons # {} /\ \E i \in {RandomElement(Cons)} : Line("creset " \o S(i)) /\ Take(ConReset(s, i)) /\ UNCHANGED next /\ Keep
GPrep ==
   LET X == Sequentials0 \ leaving IN
   /\ X # {}
   /\ \E Y \in {SomeSub(X, R(1, Min(2, Cardinality(X))))} :
      /\ Line(Cat(<< "prep", S(prepn), List(Y)>>)) /\ Take(Prepare(s, prepn, Y, T)) /\ prepn' = prepn + 1
      /\ leaving' = leaving \cup Y /\ UNCHANGED next
GDisassociate == \E g \in {RandomElement(Trans)} : Line("disassociate " \o S(g)) /\ Take(Disassociate(s, g)) /\ UNCHANGED next /\ Keep
GDReply == /\ s.pend # <<>>
           /\ \E k \in {R(1, Len(s.pend))} : LET id == s.pend[k].id IN
              Line("dreply " \o S(id)) /\ Take(Discovered(s, id, T)) /\ UNCHANGED next /\ Keep
GCallerGone == LET X == Callers \ s.gone IN Cardinality(X) > 1 /\ \E c \in {RandomElement(X)} :
               Line("callergone " \o S(c)) /\ s' = [s EXCEPT !.gone = @ \cup {c}] /\ UNCHANGED next /\ Keep
GVisible == \E X \in {SomeSub(Names0, R(1, 5))}, r \in {R(1, 2)} :
            Line(Cat(<< "visible", IF r = 1 THEN "internal" ELSE "extended", List(X)>>)) /\ UNCHANGED << s, next>> /\ Keep
GRemote == Line("remote") /\ UNCHANGED << s, next>> /\ Keep
GSleep == /\ \E e \in s.dl : e.lo < now + ShortMs
          /\ Line("sleep " \o S(ShortMs + 60)) /\ s' = ExpireAll([s |-> s, out |-> {}], { e \in s.dl : e.lo < now + ShortMs}).s /\ UNCHANGED next /\ Keep

(* instances that are leaving die when they are idle *)
GLeave == leaving # {} /\ \E i \in {RandomElement(leaving)} :
          /\ Line("exit " \o S(i)) /\ Take(Exit(s, i, T)) /\ leaving' = leaving \ {i} /\ UNCHANGED << next, prepn>>

Op(k) ==
   CASE k = "lookup" -> GLookup [] k = "ack" -> GAck [] k = "die" -> GDie [] k = "exit" -> GExit [] k = "discard" -> GDiscard
     [] k = "adv" -> GAdv [] k = "clear" -> GClear [] k = "cadv" -> GCAdv [] k = "corder" -> GCOrder [] k = "creset" -> GCReset
     [] k = "prep" -> GPrep [] k = "disassociate" -> GDisassociate [] k = "dreply" -> GDReply [] k = "callergone" -> GCallerGone
     [] k = "visible" -> GVisible [] k = "remote" -> GRemote [] k = "sleep" -> GSleep [] k = "leave" -> GLeave

Can(k) ==
   CASE k \in {"ack", "die"} -> Busy # {}
     [] k = "exit" -> DOMAIN s.inst # {}
     [] k \in {"adv", "prep"} -> Sequentials0 \ leaving # {}
     [] k = "clear" -> { i \in DOMAIN s.inst : s.inst[i].k = "seq" /\ s.inst[i].rsv = 0 /\ ~s.inst[i].dis} \ leaving # {}
     [] k \in {"corder", "creset"} -> Cons # {}
     [] k = "dreply" -> s.pend # <<>>
     [] k = "callergone" -> Cardinality(Callers \ s.gone) > 1
     [] k = "sleep" -> \E e \in s.dl : e.lo < now + ShortMs
     [] k = "leave" -> leaving # {}
     [] OTHER -> TRUE
Gen == /\ ~done /\ n < Length
       /\ \E k \in {Kinds[R(1, Len(Kinds))]} :
          IF Can(k) THEN Op(k) /\ n' = n + 1
          ELSE UNCHANGED << s, next, out, leaving, prepn, n>>
       /\ now' = IF Len(out') > Len(out) /\ out'[Len(out')] = "sleep " \o S(ShortMs + 60) THEN now + ShortMs + 60 ELSE now
       /\ UNCHANGED << done, cfg, global, restrict, late>>
Finish == n = Length /\ ~done /\ done' = TRUE /\ PrintT(<<"SCRIPT", ToJson(out)>>)
          /\ UNCHANGED << s, next, now, n, out, leaving, cfg, global, restrict, prepn, late>>
Spec == Init /\ [][Gen \/ Finish]_vars
=============================================================================
