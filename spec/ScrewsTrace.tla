---------------------------- MODULE ScrewsTrace ----------------------------
(* Recorded programs on paths along screws.                                  *)
EXTENDS Screws, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = <<0, 0, 0>>
Near1(x, y, t) == Abs(x - y) <= t
Shown(mo, o, t) == /\ \A i \in 1..9 : Near1(o[i], Scaled(mo.m[i], mo.d), 4)
                   /\ \A i \in 1..3 : Near1(o[9 + i], Scaled(mo.t[i], mo.d), t)
Lin(tw, o, t) == \A i \in 1..3 : /\ Abs(o[i]) < 1500000 /\ Abs(o[3 + i]) < 1500000
                                 /\ Abs(o[i] * tw.d - tw.v[i]) <= t * tw.d
                                 /\ Abs(o[3 + i] * tw.d - tw.w[i]) <= 4 * tw.d
RECURSIVE Sum(_, _, _, _, _)
Sum(b, s, ks, i, c) == IF i > Len(ks) THEN 0 ELSE LET mo == On(b, s, ks[i]) IN Scaled(mo.t[c], mo.d) + Sum(b, s, ks, i + 1, c)
Mid(ks) == LET lo == CHOOSE x \in { ks[i] : i \in 1..Len(ks) } : \A i \in 1..Len(ks) : x <= ks[i]
               hi == CHOOSE x \in { ks[i] : i \in 1..Len(ks) } : \A i \in 1..Len(ks) : x >= ks[i] IN (lo + hi) \div 2
Answer(b, s, op, o) ==
  CASE op.op = "log" -> Lin(Twist(s, st[op.b] - st[op.a]), o.v, 8)
    [] op.op = "diff" -> LET w == Sine(b, s, st[op.b] - st[op.a]) x == On(b, s, st[op.a]) y == On(b, s, st[op.b]) IN
                         \A i \in 1..3 : /\ Near1(o.v[3 + i], Scaled(w.n[i], w.d), 4)
                                         /\ Near1(o.v[i], Scaled(y.t[i], y.d) - Scaled(x.t[i], x.d), 6)
    [] op.op = "avg" -> IF op.ks = <<>> THEN o.r = "throw"
                        ELSE /\ o.r = "ok"
                             /\ LET mo == On(b, s, Mid(op.ks)) IN \A i \in 1..9 : Near1(o.v[i], Scaled(mo.m[i], mo.d), 5)
                             /\ \A c \in 1..3 : Near1(o.v[9 + c] * Len(op.ks), Sum(b, s, op.ks, 1, c), 6 * Len(op.ks))
    [] op.op = "bad" -> o.r = "throw"
    [] op.op = "half" -> /\ Shown(Placed(AxisRot(op.k, -1, 0, 1), op.t, op.e), o.v, 20)
                         /\ \A i \in 1..3 : Near1(IF i = op.k THEN Abs(o.w[i]) ELSE o.w[i] + 31416, 31416, 4)
    [] OTHER -> TRUE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET b == Motion12(Recs[h].base.v, Recs[h].base.d)
               s == Recs[h].s
               op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               x == Step(op, st)
               sh == Shown(On(b, s, x), o.m, 10)
               an == Answer(b, s, op, o) IN
           /\ ok' = (sh /\ an)
           /\ IF sh THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " answer">>)
           /\ st' = [st EXCEPT ![op.r] = x]
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
