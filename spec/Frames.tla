------------------------------- MODULE Frames -------------------------------
(* Vectors seen from another frame. Registers of one kind:                    *)
(*  "V" six-dimensional velocities, "P" six-dimensional positions: both vector *)
(*      parts are rotated,                                                     *)
(*  "X" three-dimensional positions, "T" transforms: rotation and position     *)
(*      are both rotated, "L" planar poses: the position is rotated.           *)
(* Where the frame stands does not matter. A vector is [v, w, d]: v / d and    *)
(* w / d; a transform is a motion.                                             *)
EXTENDS Motions

Vector(v, w, d) == [v |-> v, w |-> w, d |-> d]
Zero(K) == IF K = "T" THEN IdMotion ELSE Vector(<<0, 0, 0>>, <<0, 0, 0>>, 1)
Loaded(K, op) == CASE K = "T" -> Motion12(op.v, op.d)
                   [] K \in { "V", "P" } -> Vector(SubSeq(op.v, 1, 3), SubSeq(op.v, 4, 6), op.d)
                   [] K = "X" -> Vector(op.v, <<0, 0, 0>>, op.d)
                   [] K = "L" -> Vector(<<op.v[1], op.v[2], 0>>, <<op.v[3], 0, 0>>, op.d)

Reduce(x) == LET g == GcdSeq(x.v \o x.w, 1, x.d) IN IF g = 1 THEN x ELSE Vector(DivSeq(x.v, g), DivSeq(x.w, g), x.d \div g)
(* the rotation m / d applied to x *)
Turned(K, m, d, x) ==
  CASE K = "T" -> MkMotion(MMul(m, x.m), MVec(m, x.t), d * x.d)
    [] K = "L" -> Reduce(Vector(MVec(m, x.v), VScale(d, x.w), d * x.d))
    [] OTHER -> Reduce(Vector(MVec(m, x.v), MVec(m, x.w), d * x.d))
Change(K, frame, inv, x) == Turned(K, IF inv = 1 THEN MTr(frame.m) ELSE frame.m, frame.d, x)

(* frames: the two frames of the program; transforms may also be changed by registers (3, 4, 5) *)
Frame(K, op, frames, reg) ==
  IF K = "L" THEN LET r == Turn(op.ta, op.tb) IN AxisRot(3, r.c, r.s, r.n)
  ELSE IF op.h > 2 THEN reg[op.h - 2] ELSE frames[op.h]
Step(K, op, frames, reg) ==
  CASE op.op = "load" -> Loaded(K, op)
    [] op.op = "ch" -> Change(K, Frame(K, op, frames, reg), op.inv, reg[op.a])
    [] OTHER -> Zero(K)

(* ------------------------------------------------ observed, times 10^4 *)
Shown(n, d, o) == Abs(o) < 1000000 /\ Abs(o * d - 10000 * n) <= 2 * d
Displays(K, x, o) ==
  CASE K = "T" -> (\A i \in 1..9 : Shown(x.m[i], x.d, o[i])) /\ (\A i \in 1..3 : Shown(x.t[i], x.d, o[9 + i]))
    [] K \in { "V", "P" } -> \A i \in 1..3 : Shown(x.v[i], x.d, o[i]) /\ Shown(x.w[i], x.d, o[3 + i])
    [] K = "X" -> \A i \in 1..3 : Shown(x.v[i], x.d, o[i])
    [] K = "L" -> Shown(x.v[1], x.d, o[1]) /\ Shown(x.v[2], x.d, o[2]) /\ Shown(x.w[1], x.d, o[3])

(* a matrix times 10^4 *)
Col(o, j) == << o[j], o[j + 3], o[j + 6] >>
Close(x, y, t) == Abs(x - y) <= t
Sane(o) == \A i \in 1..Len(o) : Abs(o[i]) <= 10010
RightHanded(o) ==
  LET a == Col(o, 1) b == Col(o, 2) c == Col(o, 3) x == Cross(a, b) IN
  /\ \A u \in { a, b, c } : Close(Dot(u, u), 100000000, 60000)
  /\ Close(Dot(a, b), 0, 40000) /\ Close(Dot(a, c), 0, 40000) /\ Close(Dot(b, c), 0, 40000)
  /\ \A i \in 1..3 : Close(x[i], 10000 * c[i], 60000)
Sum1(u) == Abs(u[1]) + Abs(u[2]) + Abs(u[3])
Along(c, u) == LET x == Cross(c, u) IN Dot(c, u) > 0 /\ \A i \in 1..3 : Abs(x[i]) <= 2 * Sum1(u)
(* a frame built on the direction u: its third axis *)
BuiltOn(u, o) == Sane(SubSeq(o, 1, 9)) /\ RightHanded(o) /\ Along(Col(o, 3), u)

OnAxis(u) == Cardinality({ i \in 1..3 : u[i] # 0 }) = 1
InPlane(u) == \E i \in 1..3 : u[i] = 0
Fixes(x, u) == MVec(x.m, u) = VScale(x.d, u)
About(o, u) == LET x == << o[1]*u[1] + o[2]*u[2] + o[3]*u[3], o[4]*u[1] + o[5]*u[2] + o[6]*u[3], o[7]*u[1] + o[8]*u[2] + o[9]*u[3] >> IN
               \A i \in 1..3 : Abs(x[i] - 10000 * u[i]) <= 2 * Sum1(u)
(* the cosine and sine parts of the trace of the transpose of one times the other, for the coordinate axis k *)
Facing(x, o, k) == LET i == (k % 3) + 1 j == ((k + 1) % 3) + 1 at(y, a, b) == y[3 * (a - 1) + b] IN
  at(x.m, i, i) * at(o, i, i) + at(x.m, j, j) * at(o, j, j) + at(x.m, i, j) * at(o, i, j) + at(x.m, j, i) * at(o, j, i)
(* projecting the motion x on the axis u; strict: rotations about any axis are to be kept *)
Projected(x, u, strict, tf, o) ==
  IF u = <<0, 0, 0>> THEN o.r = "throw"
  ELSE IF o.r # "ok" THEN ~OnAxis(u) /\ ~(Fixes(x, u) /\ (InPlane(u) \/ strict = 1))
  ELSE /\ Sane(SubSeq(o.v, 1, 9)) /\ RightHanded(o.v) /\ About(o.v, u)
       /\ (tf = 1) => \A i \in 1..3 : Shown(x.t[i], x.d, o.v[9 + i])
       /\ (Fixes(x, u) /\ (InPlane(u) \/ strict = 1)) => \A i \in 1..9 : Shown(x.m[i], x.d, o.v[i])
       \* never the farther of two opposite rotations
       /\ OnAxis(u) => Facing(x, o.v, CHOOSE k \in 1..3 : u[k] # 0) >= -8 * x.d
=============================================================================
