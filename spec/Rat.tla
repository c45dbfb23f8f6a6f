-------------------------------- MODULE Rat --------------------------------
(* Exact rational linear algebra on 32-bit integers.                        *)
(* A rigid motion is [m |-> 9 integers (row major), t |-> 3 integers,       *)
(* d |-> a positive integer]: rotation m/d and translation t/d.             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

RECURSIVE GcdSeq(_, _, _)
GcdSeq(s, k, g) == IF g = 1 \/ k > Len(s) THEN g ELSE GcdSeq(s, k + 1, Gcd(g, s[k]))

AllDiv(s, p) == \A k \in 1..Len(s) : s[k] % p = 0
DivSeq(s, p) == [k \in 1..Len(s) |-> s[k] \div p]

Vec(s) == [k \in 1..Len(s) |-> s[k]]

---------------------------------------------------------------------------
(* 3-vectors and 3x3 matrices of integers *)
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
VSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
VScale(c, a) == [k \in 1..Len(a) |-> c * a[k]]
I9 == <<1,0,0, 0,1,0, 0,0,1>>
MMul(a, b) == << a[1]*b[1] + a[2]*b[4] + a[3]*b[7],
                 a[1]*b[2] + a[2]*b[5] + a[3]*b[8],
                 a[1]*b[3] + a[2]*b[6] + a[3]*b[9],
                 a[4]*b[1] + a[5]*b[4] + a[6]*b[7],
                 a[4]*b[2] + a[5]*b[5] + a[6]*b[8],
                 a[4]*b[3] + a[5]*b[6] + a[6]*b[9],
                 a[7]*b[1] + a[8]*b[4] + a[9]*b[7],
                 a[7]*b[2] + a[8]*b[5] + a[9]*b[8],
                 a[7]*b[3] + a[8]*b[6] + a[9]*b[9] >>
MTr(a) == << a[1], a[4], a[7], a[2], a[5], a[8], a[3], a[6], a[9] >>
MVec(a, v) == << a[1]*v[1] + a[2]*v[2] + a[3]*v[3],
                 a[4]*v[1] + a[5]*v[2] + a[6]*v[3],
                 a[7]*v[1] + a[8]*v[2] + a[9]*v[3] >>
Outer(a, b) == << a[1]*b[1], a[1]*b[2], a[1]*b[3],
                  a[2]*b[1], a[2]*b[2], a[2]*b[3],
                  a[3]*b[1], a[3]*b[2], a[3]*b[3] >>
Det(a) == a[1]*(a[5]*a[9] - a[6]*a[8]) - a[2]*(a[4]*a[9] - a[6]*a[7]) + a[3]*(a[4]*a[8] - a[5]*a[7])

---------------------------------------------------------------------------
(* rigid motions *)
RECURSIVE NormBy(_, _)
NormBy(p, f) ==
  IF p.d % f = 0 /\ AllDiv(p.m, f) /\ AllDiv(p.t, f)
  THEN NormBy([m |-> DivSeq(p.m, f), t |-> DivSeq(p.t, f), d |-> p.d \div f], f)
  ELSE p
Norm(p) == NormBy(NormBy(NormBy(NormBy(p, 7), 3), 5), 2)

MkMotion(m, t, d) == Norm([m |-> m, t |-> t, d |-> d])
IdMotion == [m |-> I9, t |-> <<0,0,0>>, d |-> 1]
(* a motion given as 12 integers over the denominator d *)
Motion12(s, d) == MkMotion(SubSeq(s, 1, 9), SubSeq(s, 10, 12), d)
Compose(p, q) == MkMotion(MMul(p.m, q.m), VAdd(MVec(p.m, q.t), VScale(q.d, p.t)), p.d * q.d)
(* inverse: (R,t) -> (R^T, -R^T t); with denominators d, R^T t has denominator d*d *)
Inverse(p) == MkMotion(VScale(p.d, MTr(p.m)), VScale(-1, MVec(MTr(p.m), p.t)), p.d * p.d)
SameMotion(p, q) ==
  /\ \A k \in 1..9 : p.m[k] * q.d = q.m[k] * p.d
  /\ \A k \in 1..3 : p.t[k] * q.d = q.t[k] * p.d
IsRotationM(m, d) == /\ MMul(m, MTr(m)) = VScale(d*d, I9)
                     /\ Det(m) = d*d*d
Act(p, v, e) == [v |-> VAdd(MVec(p.m, v), VScale(e, p.t)), d |-> p.d * e]  \* acts on v/e

(* rotation about a coordinate axis (1,2,3) by the angle with cosine c/n and sine s/n *)
AxisRot(k, c, s, n) ==
  MkMotion(CASE k = 1 -> << n,0,0, 0,c,-s, 0,s,c >>
             [] k = 2 -> << c,0,s, 0,n,0, -s,0,c >>
             [] k = 3 -> << c,-s,0, s,c,0, 0,0,n >>, <<0,0,0>>, n)
(* roll pitch yaw, each given as <<c, s, n>> *)
Rpy(r, p, y) == Compose(AxisRot(3, y[1], y[2], y[3]),
                Compose(AxisRot(2, p[1], p[2], p[3]), AxisRot(1, r[1], r[2], r[3])))
Translation(t) == [m |-> I9, t |-> t, d |-> 1]
=============================================================================
