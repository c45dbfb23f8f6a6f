----------------------------- MODULE ArcsTrace -----------------------------
(* Recorded plans.                                                            *)
EXTENDS Arcs, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, ok
vars == <<h, k, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE
(* strict: the comparison of the distances is exact in single precision *)
Good(q, o) == LET d == q.x * q.x + q.y * q.y e == 16 * q.r * q.r m == IF q.strict = 1 THEN 0 ELSE e \div 50000 + 1 IN
  IF d < e - m THEN o.r = "throw"
  ELSE IF d < e + m /\ q.strict = 0 THEN o.r = "throw" \/ (o.r = "ok" /\ Path(q, o))
  ELSE o.r = "ok" /\ Path(q, o)
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET q == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               good == Fits(q) /\ Good(q, o) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, o.r>>)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
