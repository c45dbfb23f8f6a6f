---------------------------- MODULE MotionsTrace ----------------------------
(* Recorded programs over registers of motions.                              *)
EXTENDS Motions, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = [i \in 1..3 |-> Identity]
Load(kd, op) ==
  CASE kd \in { "T", "R" } -> OfMotion(Motion12(op.v, op.d))
    [] kd = "Q" -> Quat(op.v, op.d)
    [] kd = "G" /\ "w" \in DOMAIN op -> LET n == AboutAxis(op.u, op.g, op.w[1], op.w[2]) IN Displaced(op.t, op.e, n.q, n.d)
    [] kd \in { "D", "G" } -> Displaced(op.t, op.e, op.v, op.d)
    [] kd = "P" -> Planar(op.v[1], op.v[2], op.d, op.a, op.b)
(* register r afterwards *)
After(kd, op) ==
  CASE op.op = "load" -> Load(kd, op.x)
    [] op.op = "ident" -> Identity
    [] op.op = "mul"  -> Mul(kd, st[op.a], st[op.b])
    [] op.op = "inv"  -> Inv(kd, st[op.a])
    [] op.op = "diff" -> Diff(kd, st[op.a], st[op.b])
    [] OTHER          -> st[op.r]          \* normalising, measuring and acting leave the motion
Measured(kd, op, o) ==
  CASE op.what = "det"  -> o.n = op.L
    [] op.what = "norm" -> IF kd \in { "Q", "G" } THEN o.n = op.L ELSE IsRoot(NormSq(st[op.r]), op.L, o.roots)
    [] op.what = "dist" -> IsRoot(DistSq(st[op.r], st[op.b]), op.L, o.roots)
    [] op.what = "distsq" -> IsSquare(DistSq(st[op.r], st[op.b]), op.L, o.n)
    [] op.what = "is"   -> o.is
    [] op.what = "same" -> o.is = SameMotion(st[op.r].mo, st[op.b].mo)
OnGrid3(p, g, D, n) == LET f == Gcd(D, p.d) IN \A i \in 1..n : g[i] * (p.d \div f) = p.v[i] * (D \div f)
Answer(kd, op, o) ==
  CASE op.op = "matrix" -> o.n = 100 * Det(op.v) /\ o.is = IsRotationM(op.v, 1)
    [] op.op = "mul" -> op.f = "asg" => o.self
    [] op.op = "act" -> OnGrid3(Image(kd, st[op.r], op.p, op.e), o.p, op.D, IF kd = "P" THEN 2 ELSE 3)
    [] op.op = "meas" -> Measured(kd, op, o)
    [] OTHER -> TRUE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET kd == Recs[h].kind
               op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               v == After(kd, op)
               sh == Shows(kd, v, o, Recs[h].D)
               an == Answer(kd, op, o) IN
           /\ ok' = (sh /\ an)
           /\ IF sh THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, kd \o " " \o op.op>>)
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, kd \o " " \o op.op \o " answer">>)
           /\ st' = [st EXCEPT ![op.r] = v]
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
