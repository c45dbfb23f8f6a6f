------------------------------- MODULE Motions -------------------------------
(* A machine over registers of one kind of rigid motion:                       *)
(*   "T" transforms, "R" rotation matrices, "Q" unit quaternions, "P" planar   *)
(*   poses, "D" displacements (a position and a unit quaternion), *)
(*   "G" transforms of qi::geometry, a quaternion and a position. A value is [mo |-> exact motion, a, b |-> the angle of a planar    *)
(*   pose as a * atan2(4,3) + b * (pi/2), q, qd |-> the quaternion q / qd].    *)
EXTENDS Rat

RECURSIVE NormQ(_, _, _)
NormQ(q, d, f) == IF d % f = 0 /\ AllDiv(q, f) THEN NormQ(DivSeq(q, f), d \div f, f) ELSE [q |-> q, qd |-> d]
NormQ3(q, d) == LET w == NormQ(q, d, 7) x == NormQ(w.q, w.qd, 5) y == NormQ(x.q, x.qd, 3) IN NormQ(y.q, y.qd, 2)
Hamilton(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                     p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                     p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                     p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
(* the rotation a unit quaternion q / d stands for *)
OfQuaternion(q, d) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  [m |-> << d*d - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w),
            2*(x*y + z*w), d*d - 2*(x*x + z*z), 2*(y*z - x*w),
            2*(x*z - y*w), 2*(y*z + x*w), d*d - 2*(x*x + y*y) >>, t |-> <<0,0,0>>, d |-> d * d]

(* cosine and sine of a * atan2(4,3) + b * (pi/2): powers of (3 + 4 i) / 5 and i *)
Times(u, v) == << u[1]*v[1] - u[2]*v[2], u[1]*v[2] + u[2]*v[1] >>
RECURSIVE Power(_, _)
Power(u, n) == IF n = 0 THEN <<1, 0>> ELSE Times(u, Power(u, n - 1))
Pow5(n) == Power(<<5, 0>>, n)[1]
Turn(a, b) ==
  LET u == IF a >= 0 THEN Power(<<3, 4>>, a) ELSE Power(<<3, -4>>, -a)
      v == Power(<<0, 1>>, b % 4)
      w == Times(u, v) IN
  [c |-> w[1], s |-> w[2], n |-> Pow5(Abs(a))]
(* the angle times 10^7 *)
Angle(a, b) == a * 9272952 + b * 15707963

Val(mo, a, b, q, qd) == [mo |-> mo, a |-> a, b |-> b, q |-> q, qd |-> qd]
OfMotion(mo) == Val(mo, 0, 0, <<1,0,0,0>>, 1)
Identity == OfMotion(IdMotion)
Planar(x, y, d, a, b) == LET r == Turn(a, b) IN
  Val(Compose(MkMotion(VScale(d, I9), <<x, y, 0>>, d), AxisRot(3, r.c, r.s, r.n)), a, b, <<1,0,0,0>>, 1)
Quat(q, d) == LET n == NormQ3(q, d) IN Val(IdMotion, 0, 0, n.q, n.qd)

Displaced(t, e, q, d) == LET n == NormQ3(q, d) IN
  Val(MkMotion(VScale(e, OfQuaternion(n.q, n.qd).m), VScale(n.qd * n.qd, t), n.qd * n.qd * e), 0, 0, n.q, n.qd)

(* twice the angle (a, b) about u / g *)
AboutAxis(u, g, a, b) == LET w == Turn(a, b) IN [q |-> << w.c * g, w.s * u[1], w.s * u[2], w.s * u[3] >>, d |-> w.n * g]
Mul(k, x, y) ==
  CASE k \in { "D", "G" } -> LET n == NormQ3(Hamilton(x.q, y.q), x.qd * y.qd) IN Val(Compose(x.mo, y.mo), 0, 0, n.q, n.qd)
    [] k \in { "T", "R" } -> OfMotion(Compose(x.mo, y.mo))
    [] k = "P" -> Val(Compose(x.mo, y.mo), x.a + y.a, x.b + y.b, <<1,0,0,0>>, 1)
    [] k = "Q" -> Quat(Hamilton(x.q, y.q), x.qd * y.qd)
Inv(k, x) ==
  CASE k \in { "T", "R" } -> OfMotion(Inverse(x.mo))
    [] k = "P" -> Val(Inverse(x.mo), -x.a, -x.b, <<1,0,0,0>>, 1)
    [] k = "G" -> Val(Inverse(x.mo), 0, 0, << x.q[1], -x.q[2], -x.q[3], -x.q[4] >>, x.qd)
    [] k = "Q" -> Quat(<< x.q[1], -x.q[2], -x.q[3], -x.q[4] >>, x.qd)
Diff(k, x, y) == Mul(k, Inv(k, x), y)
(* the image of the point v / e: [v, d] *)
Image(k, x, v, e) == IF k = "Q" THEN Act(OfQuaternion(x.q, x.qd), v, e) ELSE Act(x.mo, v, e)
(* squared distance of the origins: n / d^2; squared norm of a translation *)
Lcm(a, b) == (a \div Gcd(a, b)) * b
DistSq(x, y) == LET d == Lcm(x.mo.d, y.mo.d)
                    t == VSub(VScale(d \div x.mo.d, x.mo.t), VScale(d \div y.mo.d, y.mo.t)) IN [n |-> Dot(t, t), d |-> d]
NormSq(x) == [n |-> Dot(x.mo.t, x.mo.t), d |-> x.mo.d]

(* ---------------------------------------------------------- observations *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)
Near(x, y, t) == Abs(x - y) <= t
(* sq: the square as n / d^2; s1, s10, s100: the root times L, 10 L, 100 L, rounded *)
IsRoot(sq, L, o) ==
  LET n == sq.n * (L \div sq.d) * (L \div sq.d)
      k == IF n < 100000 THEN 3 ELSE IF n < 10000000 THEN 2 ELSE 1
      m == CASE k = 3 -> 10000 * n [] k = 2 -> 100 * n [] OTHER -> n IN
  L % sq.d = 0 /\ Near(o[k], ISqrt(m), 2)
IsSquare(sq, L, o) == LET n == sq.n * (L \div sq.d) * (L \div sq.d) IN Near(o, n, 2 + n \div 100000)
Shows(k, x, o, D) ==
  CASE k = "T" -> /\ D % x.mo.d = 0
                  /\ \A i \in 1..9 : o.v[i] = x.mo.m[i] * (D \div x.mo.d)
                  /\ \A i \in 1..3 : o.v[9 + i] = x.mo.t[i] * (D \div x.mo.d)
    [] k = "R" -> D % x.mo.d = 0 /\ \A i \in 1..9 : o.v[i] = x.mo.m[i] * (D \div x.mo.d)
    [] k = "Q" -> D % x.qd = 0 /\ \A i \in 1..4 : o.v[i] = x.q[i] * (D \div x.qd)
    [] k = "D" -> /\ D % x.qd = 0 /\ \A i \in 1..4 : o.v[i] = x.q[i] * (D \div x.qd)
                  /\ LET f == Gcd(D, x.mo.d) IN \A i \in 1..3 : o.v[4 + i] * (x.mo.d \div f) = x.mo.t[i] * (D \div f)
    \* the quaternion up to its sign, which rotates alike
    [] k = "G" -> /\ D % x.qd = 0 /\ \E e \in { 1, -1 } : \A i \in 1..4 : o.v[i] = e * x.q[i] * (D \div x.qd)
                  /\ LET f == Gcd(D, x.mo.d) IN \A i \in 1..3 : o.v[4 + i] * (x.mo.d \div f) = x.mo.t[i] * (D \div f)
    [] k = "P" -> /\ D % x.mo.d = 0
                  /\ \A i \in 1..2 : o.v[i] = x.mo.t[i] * (D \div x.mo.d)
                  /\ o.v[3] = x.mo.m[1] * (D \div x.mo.d) /\ o.v[4] = x.mo.m[4] * (D \div x.mo.d)
                  /\ Near(100 * o.th, Angle(x.a, x.b), 300)     \* th: the angle times 10^5
=============================================================================
