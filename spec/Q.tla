--------------------------------- MODULE Q ---------------------------------
(* Exact rational scalars: <<numerator, denominator>>, reduced, denominator   *)
(* positive.                                                                  *)
EXTENDS Integers, Sequences

QAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE QGcd(_, _)
QGcd(a, b) == IF b = 0 THEN QAbs(a) ELSE QGcd(b, a % QAbs(b))
Q(n, d) == LET g == QGcd(n, d) IN IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
QInt(n) == <<n, 1>>
Q0 == <<0, 1>>
Q1 == <<1, 1>>
QAdd(a, b) == LET g == QGcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
(* cross-cancelled, so that intermediate products stay small *)
QMul(a, b) == LET g == QGcd(a[1], b[2]) h == QGcd(b[1], a[2]) IN
  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == QSub(a, b)[1] < 0
QLe(a, b) == QSub(a, b)[1] <= 0
QMag(a) == <<QAbs(a[1]), a[2]>>
QSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
QSqr(a) == QMul(a, a)
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN Q0 ELSE QAdd(s[1], QSum(Tail(s)))
(* the number an implementation printed as v on the grid 1/D *)
QOnGrid(a, v, D) == a[1] * (D \div a[2]) = v /\ D % a[2] = 0
=============================================================================
