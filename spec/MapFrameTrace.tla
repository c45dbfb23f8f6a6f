---------------------------- MODULE MapFrameTrace ----------------------------
(* Recorded histories of maps. Metric observations are in 1/10 of the unit; a    *)
(* history is exact when its numbers are represented exactly.                  *)
EXTENDS MapFrame, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, m, ok
vars == <<h, k, m, ok>>
None == [size |-> 0, res |-> 0, off |-> <<0, 0>>, t |-> 0]
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ m = None
Close(o, e, x) == IF x = 1 THEN o = 10 * e ELSE MAbs(o - 10 * e) <= 3 + MAbs(e) \div 50000
Pixel(p, d, res, x) == IF x = 1 THEN Away(p, d, res) ELSE Nearest(p, d, res)
Same(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ (Len(a) < 3 \/ MAbs(a[3] - b[3]) = 0)
Answer(op, o, n, x) ==
  CASE op.op = "metric" -> LET d == ToMetric(n, op.p) IN
         /\ Close(o.v[1], d[1], x) /\ Close(o.v[2], d[2], x)
         /\ (op.f = "pose" => o.v[3] = op.a)
    [] op.op = "pixel" -> LET i == IF op.f = "delta" THEN <<op.d[1], 0 - op.d[2]>> ELSE Images(n, op.d) IN
         Pixel(o.p[1], i[1], n.res, x) /\ Pixel(o.p[2], i[2], n.res, x)
    [] op.op = "there" -> o.p = op.p
    [] op.op = "same" -> o.q = IF Same(op.a, op.b) THEN 1 ELSE 0
    [] OTHER -> TRUE
State(o, n, x) == o.s[1] = n.size /\ o.s[2] = n.t /\ Close(o.s[3], n.res, x) /\ Close(o.s[4], n.off[1], x) /\ Close(o.s[5], n.off[2], x) /\ o.s[6] = n.t
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               x == Recs[h].exact
               n == Step(op, m)
               st == State(o, n, x)
               an == Answer(op, o, n, x) IN
           /\ ok' = (st /\ an)
           /\ IF st THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " answer">>)
           /\ m' = n
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
