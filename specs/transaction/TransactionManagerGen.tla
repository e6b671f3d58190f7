----------------------- MODULE TransactionManagerGen -----------------------
(* Operation sequences for the real transaction manager, drawn at random from *)
(* the behaviours of TransactionManager (used with -simulate).                *)
EXTENDS TransactionManager, Json, Randomization

CONSTANTS Kinds, Length, MaxInstances, MaxRms, Votes, Ends

VARIABLES s, n, out, id, fresh, done, nay, xs
vars == << s, n, out, id, fresh, done, nay, xs>>

RECURSIVE Cat(_)
Cat(f) == IF f = <<>> THEN "" ELSE Head(f) \o (IF Len(f) = 1 THEN "" ELSE " ") \o Cat(Tail(f))
List(X) == IF X = {} THEN "-" ELSE Csv(X)
R(i, j) == RandomElement(i..j)
Own(t, b) == IF b = 9 THEN 0 ELSE ((t + b) % 3) + 1

Init == /\ \E c \in {[ m \in 1..R(1, MaxRms) |-> R(1, MaxInstances)]} :
           /\ s = Empty([ i \in UNION { { 10 * m + k : k \in 1..c[m]} : m \in DOMAIN c} |-> i \div 10])
           /\ out = << "boot " \o Cat([ m \in DOMAIN c |-> S(m) \o ":" \o S(c[m])])>>
        /\ n = 0 /\ id = 1 /\ fresh = 1 /\ done = FALSE /\ nay = {} /\ xs = 91

Line(t) == out' = Append(out, t)
Take(F) == \E r \in {RandomElement(F)} : s' = [r.s EXCEPT !.held = {}]
Working == { t \in DOMAIN s.tx : Stage(s, t) # "involved"}
Still == { t \in DOMAIN s.tx : Stage(s, t) = "involved"}
(* mostly one that is there *)
SomeT(z) == IF Still # {} /\ R(1, 10) > 3 THEN RandomElement(Still) ELSE IF DOMAIN s.tx # {} /\ R(1, 6) = 1 THEN RandomElement(DOMAIN s.tx) ELSE fresh
NewT(t) == IF t = fresh THEN fresh' = fresh + 1 ELSE UNCHANGED fresh
SomeB(t) == IF t \in DOMAIN s.tx /\ (\E k \in DOMAIN s.tx[t].br : s.tx[t].br[k].b = 9) /\ R(1, 2) = 1 THEN 9 ELSE IF R(1, 3) = 1 THEN 2 ELSE 1
SomeRms(z) == { m \in s.rms : R(1, 2) = 1}
Same == UNCHANGED << xs, nay>>

GInvolve == \E t \in {SomeT(0)} : \E b \in {SomeB(t)}, rs \in {SomeRms(0) \cup (IF R(1, 20) = 1 THEN {77} ELSE {})}, reply \in {R(1, 2) = 1} :
   /\ Line(Cat(<< "involve", S(id), S(t), S(b), List(rs), IF reply THEN "1" ELSE "0">>)) /\ NewT(t) /\ id' = id + 1 /\ Same
   /\ Take(Involved(s, t, b, Own(t, b), id, rs, reply))
GEnd(kind) == \E t \in {SomeT(0)} : \E b \in {SomeB(t)}, rs \in {IF R(1, 2) = 1 THEN {} ELSE SomeRms(0)} :
   /\ Line(Cat(<< kind, S(id), S(t), S(b), List(rs)>>)) /\ NewT(t) /\ id' = id + 1 /\ Same
   /\ Take(IF kind = "commit" THEN Commit(s, t, b, Own(t, b), id, rs) ELSE Rollback(s, t, b, Own(t, b), id, rs))
GXEnd(kind) ==
   LET P == { t \in DOMAIN s.tx : Stage(s, t) = "post_prepare"}
   IN \E C \in {IF kind # "xprepare" /\ P # {} /\ R(1, 3) > 1 THEN P ELSE IF DOMAIN s.tx # {} THEN DOMAIN s.tx ELSE {fresh + 20}} : LET D == IF kind = "xcommit" THEN C \ nay ELSE C
   IN \E t \in {IF D = {} THEN fresh + 20 ELSE RandomElement(D)} :
   /\ Line(Cat(<< kind, S(id), S(t), IF kind = "xcommit" /\ t \notin P THEN "1" ELSE "0">>)) /\ id' = id + 1 /\ UNCHANGED << fresh, xs, nay>>
   /\ Take(CASE kind = "xprepare" -> XPrepare(s, t, id) [] kind = "xcommit" -> XCommit(s, t, id) [] OTHER -> XRollback(s, t, id))
Out == s.at \cup UNION { s.inst[i].busy : i \in DOMAIN s.inst}
At(q) == IF External(q.rm) THEN q.rm ELSE CHOOSE i \in DOMAIN s.inst : q \in s.inst[i].busy
CodeFor(q) == IF q.k = "prepare" THEN Votes[R(1, Len(Votes))] ELSE Ends[R(1, Len(Ends))]
GReply == \E q \in {RandomElement(Out)} : \E c \in {CodeFor(q)} :
   /\ Line(Cat(<< "reply", q.k, S(q.rm), S(q.t), S(q.b), c>>)) /\ UNCHANGED << fresh, id, xs>>
   /\ nay' = IF q.k = "prepare" /\ c \notin {"ok", "read_only"} THEN nay \cup {q.t} ELSE nay
   /\ Take(Reply(s, At(q), q, c))
Local == { q \in Out : ~External(q.rm)}
GDie == \E q \in {RandomElement(Local)} :
   /\ Line(Cat(<< "die", q.k, S(q.rm), S(q.t), S(q.b)>>)) /\ UNCHANGED << fresh, id, xs>>
   /\ nay' = IF q.k = "prepare" THEN nay \cup {q.t} ELSE nay
   /\ Take(Die(s, At(q)))
IdleOnes == { i \in DOMAIN s.inst : s.inst[i].busy = {}}
GIdle == \E i \in {RandomElement(IdleOnes)} :
   /\ Line(Cat(<< "idle", S(s.inst[i].rm)>>)) /\ UNCHANGED << fresh, id>> /\ Same
   /\ Take(Die(s, i))
GXReg == \E new \in {s.ext = {} \/ R(1, 3) = 1} : \E x \in {IF new THEN xs ELSE RandomElement(s.ext)} :
   /\ Line(Cat(<< "xreg", S(x)>>)) /\ xs' = (IF new THEN xs + 1 ELSE xs) /\ UNCHANGED << fresh, id, nay>>
   /\ Take(XInstance(s, x))
GXInvolve == \E new \in {s.ext = {} \/ R(1, 8) = 1} : \E x \in {IF new THEN xs ELSE RandomElement(s.ext)}, t \in {SomeT(0)} : \E b \in {SomeB(t)} :
   /\ Line(Cat(<< "xinvolve", S(x), S(t), S(b)>>)) /\ NewT(t) /\ xs' = (IF new THEN xs + 1 ELSE xs) /\ UNCHANGED << id, nay>>
   /\ Take(XInvolved(s, x, t, b, Own(t, b)))
GXGone == \E x \in {RandomElement(s.ext)} :
   /\ Line(Cat(<< "xgone", S(x), S(R(1, 2))>>)) /\ UNCHANGED << fresh, id, xs>>
   /\ nay' = nay \cup { j.t : j \in { k \in s.jobs : k.k = "prepare" /\ \E q \in k.all : q.rm = x}}
   /\ Take(XGone(s, x))
GOwner == \E c \in {R(1, 3)} : Line(Cat(<< "owner", S(c)>>)) /\ UNCHANGED << fresh, id>> /\ Same /\ Take(OwnerGone(s, c))
GInbound == \E t \in {SomeT(0)} :
   /\ Line(Cat(<< "inbound", S(t)>>)) /\ NewT(t) /\ UNCHANGED id /\ Same /\ Take(Inbound(s, t))
GActive == \E Ts \in {RandomSubset(R(1, 3), 1..(fresh + 2))} :
   /\ Line(Cat(<< "active", S(id), List(Ts)>>)) /\ id' = id + 1 /\ UNCHANGED fresh /\ Same /\ Take(Active(s, id, Ts))
GSettle == Line("settle") /\ UNCHANGED << s, fresh, id>> /\ Same

Can(k) == CASE k = "reply" -> Out # {} [] k = "die" -> Local # {} [] k = "idle" -> IdleOnes # {} [] k = "xgone" -> s.ext # {} 
            [] k \in {"xinvolve", "xreg"} -> xs < 99 [] OTHER -> TRUE
Act(k) == CASE k = "involve" -> GInvolve [] k \in {"commit", "rollback"} -> GEnd(k) [] k \in {"xprepare", "xcommit", "xrollback"} -> GXEnd(k)
            [] k = "reply" -> GReply [] k = "die" -> GDie [] k = "idle" -> GIdle [] k = "xreg" -> GXReg [] k = "xinvolve" -> GXInvolve
            [] k = "xgone" -> GXGone [] k = "owner" -> GOwner [] k = "inbound" -> GInbound [] k = "active" -> GActive [] OTHER -> GSettle
Next == \/ /\ n < Length /\ n' = n + 1 /\ UNCHANGED done
           /\ \E k \in {Kinds[R(1, Len(Kinds))]} : Act(IF Can(k) THEN k ELSE "involve")
        \/ /\ n = Length /\ ~done /\ done' = TRUE
           /\ PrintT(<< "SCRIPT", ToJson(Append(out, "settle"))>>)
           /\ UNCHANGED << s, n, out, id, fresh, nay, xs>>
Spec == Init /\ [][Next]_vars
=============================================================================
