-------------------------------- MODULE Pid --------------------------------
(* The PID controller.                                                        *)
EXTENDS Q
(* parameters p: kp, kv, ki, th, off, per; memory: e (last reduced error), acc *)
(* (integral), first *)
Valid(p) == /\ \A x \in { p.kp, p.kv, p.ki, p.th, p.off } : x[1] >= 0
            /\ p.per[1] > 0
New(p) == [p |-> p, e |-> Q0, acc |-> Q0, first |-> TRUE]
Default == New([kp |-> Q0, kv |-> Q0, ki |-> Q0, th |-> Q0, off |-> Q0, per |-> Q1])
Reduced(th, e) == IF QLt(th, e) THEN QSub(e, th) ELSE IF QLt(e, QNeg(th)) THEN QAdd(e, th) ELSE Q0
(* memory and output of a step with error e over period t *)
Memory(c, e, t) == LET r == Reduced(c.p.th, e) IN
  [c EXCEPT !.e = r, !.acc = QAdd(@, QMul(r, t)), !.first = FALSE]
Derivative(c, e, t, absolute) ==
  IF c.first THEN Q0
  ELSE LET d == QSub(Reduced(c.p.th, e), c.e) IN QDiv(IF absolute THEN QMag(d) ELSE d, t)
Output(c, e, t, absolute) ==
  QSum(<<c.p.off, QMul(c.p.kp, Reduced(c.p.th, e)), QMul(c.p.kv, Derivative(c, e, t, absolute)),
         QMul(c.p.ki, Memory(c, e, t).acc)>>)
Period(c, per) == IF per[1] > 0 THEN per ELSE c.p.per
(* one call: [c |-> controller afterwards, r |-> "ok" or "refused", y |-> output] *)
Call(c, op) ==
  CASE op.op = "init"  -> IF Valid(op.p) THEN [c |-> New(op.p), r |-> "ok", y |-> Q0] ELSE [c |-> c, r |-> "refused", y |-> Q0]
    [] op.op = "init0" -> [c |-> New(c.p), r |-> "ok", y |-> Q0]
    [] op.op = "gains" -> IF op.kp[1] >= 0 /\ op.kv[1] >= 0 /\ op.ki[1] >= 0
                          THEN [c |-> [c EXCEPT !.p.kp = op.kp, !.p.kv = op.kv, !.p.ki = op.ki], r |-> "ok", y |-> Q0]
                          ELSE [c |-> c, r |-> "refused", y |-> Q0]
    [] op.op = "fb"    -> LET e == QSub(op.cmd, op.sen) t == Period(c, op.per) IN
                          [c |-> Memory(c, e, t), r |-> "ok", y |-> Output(c, e, t, FALSE)]
    [] op.op = "fba"   -> [c |-> Memory(c, op.e, c.p.per), r |-> "ok", y |-> Output(c, op.e, c.p.per, TRUE)]
    [] op.op = "new"   -> IF Valid(op.p) THEN [c |-> New(op.p), r |-> "ok", y |-> Q0] ELSE [c |-> c, r |-> "refused", y |-> Q0]
    [] op.op = "new0"  -> [c |-> Default, r |-> "ok", y |-> Q0]

(* the control law over the whole history of (reduced error, period) pairs since the last initialisation *)
Law(p, errs, pers) ==
  LET n == Len(errs) r(k) == Reduced(p.th, errs[k]) IN
  QSum(<<p.off, QMul(p.kp, r(n)),
         IF n = 1 THEN Q0 ELSE QMul(p.kv, QDiv(QSub(r(n), r(n-1)), pers[n])),
         QMul(p.ki, QSum([k \in 1..n |-> QMul(r(k), pers[k])]))>>)
=============================================================================
