----------------------------- MODULE AnglesTrace -----------------------------
(* Recorded programs on angles and intervals.                                *)
EXTENDS Angles, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = Start
MeanOf(a, w, o) ==
  IF ~WellFormed(a, w) \/ Null(a, w) THEN o.q = 0
  ELSE IF Clear(a, w) THEN o.q = 1 /\ o.in = 1 /\ Along(a, w, o.d)
  ELSE o.q = 0 \/ o.in = 1
Answer(op, o, n) ==
  CASE op.op = "mean" -> MeanOf(st.a, Ones(st.a), o)
    [] op.op = "wmean" -> MeanOf(st.a, st.w, o)
    [] op.op = "reduce" -> /\ o.in = 1 /\ o.again = 1 /\ (o.was = 1 => o.same = 1)
                           /\ Gap(o.r, E7(Reduce(op.n))) <= 12 + 6 * AAbs(op.k)
    [] op.op = "float" -> o.in = 1 /\ o.again = 1 /\ (o.was = 1 => o.same = 1)
    [] op.op = "clip" -> /\ o.l = n.l
                         /\ o.q = IF n.l = st.l THEN 0 ELSE 1
    [] OTHER -> TRUE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               n == Step(op, st)
               an == Answer(op, o, n) IN
           /\ ok' = an
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ st' = n
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
