-------------------------- MODULE ConversionsTrace --------------------------
(* Recorded walks through the representations.                               *)
EXTENDS Conversions, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
(* a planar motion given with half-turns out of the plane *)
Tilted(op) == op.f = "S" /\ \E i \in 1..2 : op.w[i][1] # 0 \/ op.w[i][2] # 0
Start == [rep |-> "T", mo |-> IdMotion, exact |-> TRUE, loss |-> 0, rpy |-> <<>>, raw |-> 0, tilted |-> FALSE]
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = Start
Add(s, rep, mo, loss) == [s EXCEPT !.rep = rep, !.mo = Reduced(rep, mo), !.exact = s.exact /\ Exact(rep, mo), !.loss = s.loss + loss,
                                   !.rpy = IF rep \in { "P", "X", "Y" } THEN <<>> ELSE s.rpy]
After(op, o) ==
  CASE op.op = "make" -> [Start EXCEPT !.rep = MadeRep(op.f), !.tilted = Tilted(op), !.mo = Made(op), !.raw = IF op.f \in { "S", "E" } THEN o.rpy[3] ELSE 0,
                                       !.rpy = IF op.f \in { "S", "E" } /\ Principal(op.w) THEN [i \in 1..3 |-> Angle(op.w[i][1], op.w[i][2])] ELSE <<>>]
    [] op.op = "to" -> LET t == Table[op.f] IN [Add(st, t[2], st.mo, t[3]) EXCEPT !.tilted = FALSE,
                                  !.exact = st.exact /\ Exact(t[2], st.mo) /\ ~(t[2] = "P" /\ st.tilted), !.raw = IF t[2] \in { "S", "E" } THEN o.rpy[3] ELSE st.raw]
    \* the rotation is put into a transform, that keeps its place; the position into one that keeps its rotation
    [] op.op = "rot_into" -> Add(st, "T", Placed(st.mo, op.t, op.e), 0)
    [] op.op = "pos_into" -> Add(st, "T", MkMotion(VScale(st.mo.d, op.v), VScale(op.d, st.mo.t), st.mo.d * op.d), 0)
    [] op.op = "with_pos" -> Add(st, "T", Placed(st.mo, op.t, op.e), 0)
    [] op.op = "with_angle" -> Add(st, "P", Compose(st.mo, TurnRot(3, op.w[1][1], op.w[1][2])), 0)
    [] OTHER -> st
Tol(s) == 3 + 15 * s.loss
Close(s, o) == \A i \in 1..12 : LET x == IF i <= 9 THEN s.mo.m[i] ELSE s.mo.t[i - 9] IN
                 Abs(o.m[i]) < 110000 /\ Abs(o.m[i] * s.mo.d - 10000 * x) <= Tol(s) * s.mo.d
(* a planar pose of a motion out of the plane: the place, and where the first axis points to *)
Yaw(from, s, o) ==
  LET mo == s.mo IN
  /\ \A i \in 1..2 : Abs(o.m[9 + i]) < 200000 /\ Abs(o.m[9 + i] * mo.d - 10000 * mo.t[i]) <= Tol(s) * mo.d
  /\ IF from = "S" THEN Abs(o.th - st.raw) <= 2
     ELSE LET g == Abs(mo.m[1]) + Abs(mo.m[4]) IN
          (g * 20 > mo.d) => /\ Abs(o.m[1] * mo.m[4] - o.m[4] * mo.m[1]) <= 20 * Tol(s) * mo.d
                             /\ o.m[1] * mo.m[1] + o.m[4] * mo.m[4] > 0
Good(op, s, o) ==
  CASE op.op = "bad_axis" -> o.r = "throw"
    [] OTHER -> /\ o.r = "ok" /\ o.rep = s.rep
                /\ IF s.exact THEN Close(s, o) ELSE Yaw(st.rep, s, o)
                /\ (s.rpy # <<>> /\ s.rep \in { "S", "E" }) => \A i \in 1..3 : Abs(1000 * o.rpy[i] - s.rpy[i]) <= 2500 * Tol(s)
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               s == After(op, o)
               g == Good(op, s, o) IN
           /\ ok' = g
           /\ IF g THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " " \o op.f>>)
           /\ st' = s
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
