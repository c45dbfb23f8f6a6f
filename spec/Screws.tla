------------------------------- MODULE Screws -------------------------------
(* A body that moves along a screw. A screw is a unit axis u/g through the     *)
(* point p/e, and per step an angle (a * atan2(4,3) + b * (pi/2), or j / 10000 *)
(* when it is small) and an advance h/e along the axis. The path starts at a   *)
(* motion; registers hold motions on the path, by their number of steps.       *)
EXTENDS Conversions
NearRotation(s, k) == << 0, -s.u[3], s.u[2], s.u[3], 0, -s.u[1], -s.u[2], s.u[1], 0 >>
(* the motion of k steps *)
At(s, k) ==
  IF s.j # 0
  THEN LET d == 10000 * s.g * s.e IN
       Norm([m |-> VAdd(VScale(d, I9), VScale(k * s.j * s.e, NearRotation(s, k))),
             t |-> VSub(VScale(10000 * k * s.h, s.u), VScale(k * s.j, Cross(s.u, s.p))), d |-> d])
  ELSE LET r == AxisAngle(s.u, s.g, k * s.a, k * s.b) IN
       MkMotion(VScale(s.e * s.g, r.m), VAdd(VScale(s.g, VSub(VScale(r.d, s.p), MVec(r.m, s.p))), VScale(k * s.h * r.d, s.u)), r.d * s.e * s.g)
(* the angle of k steps, in 10^-4 *)
Turned(s, k) == k * s.j + (k * Angle(s.a, s.b)) \div 1000
(* the velocity that makes k steps in one unit of time, in 1/(10^4 g e) *)
Twist(s, k) == [v |-> VSub(VScale(10000 * k * s.h, s.u), VScale(Turned(s, k), Cross(s.u, s.p))),
                w |-> VScale(Turned(s, k) * s.e, s.u), d |-> s.g * s.e]
On(b, s, k) == Compose(b, At(s, k))
(* x / d in 10^-4 *)
Scaled(x, d) == 10000 * (x \div d) + (10000 * (x % d)) \div d
(* away from a half-turn: both log and the interpolation are unique *)
Unique(s, k) == Abs(Turned(s, k)) <= 31300
(* the sine of the angle of k steps along the axis, turned with the body: n / d *)
Sine(b, s, k) ==
  IF s.j # 0 THEN [n |-> VScale(k * s.j, MVec(b.m, s.u)), d |-> 10000 * s.g * b.d]
  ELSE LET w == Turn(k * s.a, k * s.b) IN [n |-> VScale(w.s, MVec(b.m, s.u)), d |-> w.n * s.g * b.d]

(* registers are numbers of steps *)
Step(op, x) ==
  CASE op.op = "load" -> op.k
    [] op.op = "mean" -> x[op.a] + ((x[op.b] - x[op.a]) * op.n) \div op.m
    [] op.op = "go"   -> x[op.a] + op.k
    [] op.op = "trip" -> x[op.b]
    [] OTHER -> x[op.r]
=============================================================================
