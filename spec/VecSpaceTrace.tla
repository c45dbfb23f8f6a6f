--------------------------- MODULE VecSpaceTrace ---------------------------
(* Recorded programs on vector-like values.                                  *)
EXTENDS VecSpace, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, x, ok
vars == <<h, k, x, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ x = [r \in 1..3 |-> Zero(Recs[h].ty)]
Near1(a, b, t) == VAbs(a - b) <= t
(* o is sqrt(n) / 64 in 1 / 6400 *)
IsRoot(o, n) == LET r == Root(n) IN o \in 0..5000000 /\ Near1(o, (100 * r.r) \div r.s, 3 + 100 \div r.s)
(* o is the components v over their length sqrt(n), in 10^-4 *)
IsUnit(o, v, n) == LET r == Root(n) IN \A i \in 1..Len(v) : Near1(o[i], (v[i] * r.s * 10000) \div r.r, 12)
Head2(v) == <<v[1], v[2]>>
Answer(ty, op, o) ==
  CASE op.op = "near" -> LET a == x[op.a] b == x[op.b] e == op.e IN
         IF e = -2 THEN o.q = 0
         ELSE IF e = -1 THEN o.q = (IF Near(ty, a, b, 0) THEN 1 ELSE 0)
         ELSE Edge(ty, a, b, e) \/ o.q = (IF Near(ty, a, b, e) THEN 1 ELSE 0)
    [] op.op = "eq" -> /\ o.q = (IF x[op.a] = x[op.b] THEN 1 ELSE 0) /\ o.n = 1 - o.q
    [] op.op = "zero" -> o.q = "throw"
    [] op.op = "quot" -> \A i \in 1..Dim(ty) : Near1(o.v[i] * op.s, 100 * x[op.a][i], VAbs(op.s) + 1)
    [] op.op = "norm" -> IsRoot(o.q, Square(x[op.a], Long(ty)))
    [] op.op = "unit" -> LET a == x[op.a] n == Square(a, Long(ty)) IN
         IF n = 0 THEN o.q = "throw"
         ELSE /\ o.q = "ok"
              /\ IF ty = "P" THEN o.g[3] = a[3] /\ IsUnit(o.v, Head2(a), n) ELSE IsUnit(o.v, a, n)
    [] op.op = "dist" -> LET n == Square(Sub(x[op.a], x[op.b]), Far(ty)) IN o.n = n /\ IsRoot(o.q, n)
    [] op.op = "dot" -> o.q = DotOf(x[op.a], x[op.b])
    [] op.op = "cross" -> o.v = IF ty = "Y" THEN <<Cross2(x[op.a], x[op.b])>> ELSE Cross3(x[op.a], x[op.b])
    [] op.op = "angle" -> LET v == Head2(x[op.a]) n == Square(v, 1..2) IN
         /\ o.q \in -31417..31417
         /\ IF n = 0 THEN TRUE
            ELSE /\ IsUnit(o.v, v, n)
                 /\ (v[2] < 0 => o.q < 0) /\ (v[2] > 0 => o.q > 0) /\ (v[2] = 0 => VAbs(o.q) = (IF v[1] > 0 THEN 0 ELSE 31416))
    [] op.op = "ortho" -> o.q = (IF VAbs(DotOf(x[op.a], x[op.b])) <= (IF op.e = -1 THEN 0 ELSE op.e) THEN 1 ELSE 0)
    [] op.op = "isunit" -> LET n == Square(x[op.a], 1..3) r == Root(n) gap == VAbs(64 * r.s - r.r) e == IF op.e = -1 THEN 0 ELSE op.e * r.s IN
         IF op.e = -1 THEN o.q = (IF n = 4096 THEN 1 ELSE 0)
         ELSE (VAbs(gap - e) <= 2) \/ o.q = (IF gap <= e THEN 1 ELSE 0)
    [] op.op = "veloc" -> o.g = Mul(x[op.a], op.n, op.d)
    [] op.op = "back" -> o.g = x[op.a]
    [] OTHER -> TRUE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET ty == Recs[h].ty
               op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               y == Step(ty, op, x)
               nx == [x EXCEPT ![op.r] = y]
               sh == o.m = nx
               an == Answer(ty, op, o)
               ref == o.ref = 1 IN
           /\ ok' = (sh /\ an /\ ref)
           /\ IF sh THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " answer">>)
           /\ IF ref THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " does not return its operand">>)
           /\ x' = nx
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
