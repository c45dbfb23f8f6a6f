------------------------------- MODULE PidMC -------------------------------
EXTENDS Pid, TLC, Json
CONSTANTS DEPTH, EMIT
P(kp, kv, ki, th, off, per) == [kp |-> kp, kv |-> kv, ki |-> ki, th |-> th, off |-> off, per |-> per]
H == <<1, 2>>
Params == { P(Q1, H, H, Q0, Q0, Q1), P(Q0, Q1, QInt(2), Q1, Q1, H), P(QInt(2), Q0, Q1, H, Q0, QInt(2)),
            P(QInt(-1), Q0, Q0, Q0, Q0, Q1), P(Q1, Q1, Q1, Q0, Q0, Q0), P(Q0, Q0, Q0, QInt(-1), Q0, Q1),
            P(Q0, Q0, Q0, Q0, QInt(-1), Q1), P(Q1, QInt(-1), Q0, Q0, Q0, Q1), P(Q1, Q0, QInt(-1), Q0, Q0, Q1) }
VARIABLES c, errs, pers, hist, last, fresh
vars == <<c, errs, pers, hist, last, fresh>>
Init == c = Default /\ errs = <<>> /\ pers = <<>> /\ hist = <<>> /\ last = Q0 /\ fresh = Default
Do(op) ==
  LET a == Call(c, op) IN
  /\ c' = a.c /\ hist' = Append(hist, op) /\ last' = a.y
  /\ IF op.op \in { "fb", "fba" }
     THEN /\ errs' = Append(errs, IF op.op = "fb" THEN QSub(op.cmd, op.sen) ELSE op.e)
          /\ pers' = Append(pers, IF op.op = "fb" THEN Period(c, op.per) ELSE c.p.per)
          /\ fresh' = Call(fresh, op).c
     ELSE IF op.op = "gains" \/ a.r = "refused" THEN UNCHANGED <<errs, pers>> /\ fresh' = Call(fresh, op).c
     ELSE errs' = <<>> /\ pers' = <<>> /\ fresh' = New(a.c.p)
Ops == { [op |-> "init0"] }
  \cup { [op |-> "fb", cmd |-> x, sen |-> H, per |-> t] : x \in { Q0, QInt(3), QInt(-2) }, t \in { QInt(-1), QInt(2) } }
  \cup { [op |-> "gains", kp |-> Q1, kv |-> QInt(2), ki |-> k] : k \in { H, QInt(-1) } }
  \cup { [op |-> "fba", e |-> x] : x \in { QInt(2), <<1, 2>> } }
Next == /\ Len(hist) < DEPTH
        /\ \/ \E op \in Ops : Do(op)
           \/ Len(hist) < 2 /\ \E p \in Params : Do([op |-> "init", p |-> p]) \/ Do([op |-> "new", p |-> p])
           \/ Len(hist) < 1 /\ Do([op |-> "new0"])
Spec == Init /\ [][Next]_vars
Signed == \A i \in 1..Len(hist) : hist[i].op # "fba"
FollowsLaw == (errs # <<>> /\ Signed /\ hist[Len(hist)].op = "fb") => last = Law(c.p, errs, pers)
LikeNew == c = fresh
NeverInvalid == Valid(c.p)
(* inside the dead zone the error counts for nothing; outside it keeps its sign *)
DeadZone == errs # <<>> => LET e == errs[Len(errs)] IN
  (c.e = Q0) = QLe(QMag(e), c.p.th) /\ QSign(c.e) \in { 0, QSign(e) }
Emitted == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([ops |-> hist])>>)
=============================================================================
