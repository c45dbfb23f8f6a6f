------------------------------ MODULE VecSpace ------------------------------
(* The vector-like types of the library: a machine with three registers that   *)
(* hold values of one type, as sequences of integers (units of 1/64).          *)
EXTENDS Integers, Sequences, FiniteSets
VAbs(x) == IF x < 0 THEN -x ELSE x
(* positions Y X S, velocities V W, rotation angles E, planar poses P,         *)
(* quaternions Q, rotations R, transforms T, and pairs: displacements D,       *)
(* scalar position and velocity K, transform and velocity L                    *)
Types == {"Y", "X", "S", "V", "W", "E", "P", "Q", "R", "T", "D", "K", "L"}
Dim(ty) == CASE ty \in {"Y", "K"} -> 2 [] ty \in {"X", "V", "E", "P"} -> 3 [] ty = "Q" -> 4
             [] ty \in {"S", "W"} -> 6 [] ty = "D" -> 7 [] ty = "R" -> 9 [] ty = "T" -> 12 [] ty = "L" -> 18
Linear(ty) == ty \in {"Y", "X", "S", "V", "W", "E", "P"}
Scalable(ty) == Linear(ty) \/ ty = "Q"
(* a factor on the left: the operators that give the same type *)
LeftScalable(ty) == ty \in {"Y", "V", "W"}
Comparable(ty) == ty \notin {"D", "K", "L"}
Normed(ty) == Scalable(ty)
Normal(ty) == Normed(ty) /\ ty # "E"
Metric(ty) == ty \in {"Y", "X", "S", "P"}
(* the components that make the length of a value, and the distance of two *)
Long(ty) == IF ty = "P" THEN 1..2 ELSE 1..Dim(ty)
Far(ty) == IF ty \in {"Y", "P"} THEN 1..2 ELSE 1..3

Zero(ty) == [i \in 1..Dim(ty) |-> 0]
Same(ty, c) == [i \in 1..Dim(ty) |-> c]
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Neg(a) == [i \in 1..Len(a) |-> -a[i]]
Mul(a, n, d) == [i \in 1..Len(a) |-> (a[i] * n) \div d]
Divides(a, n, d) == \A i \in 1..Len(a) : (a[i] * n) % d = 0
RECURSIVE DotUpTo(_, _, _)
DotUpTo(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + DotUpTo(a, b, k - 1)
DotOf(a, b) == DotUpTo(a, b, Len(a))
Part(a, s) == [i \in s |-> a[i]]
Square(a, s) == DotOf(Part(a, s), Part(a, s))
Cross3(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Cross2(a, b) == a[1]*b[2] - a[2]*b[1]

(* every component differs by at most e units; a quaternion and its opposite   *)
(* are the same rotation                                                       *)
Within(a, b, s, e) == \A i \in s : VAbs(a[i] - b[i]) <= e
Opposite(a, b, s, e) == \A i \in s : VAbs(a[i] + b[i]) <= e
Near(ty, a, b, e) ==
  CASE ty = "Q" -> Within(a, b, 1..4, e) \/ Opposite(a, b, 1..4, e)
    [] ty = "D" -> Within(a, b, 1..3, e) /\ (Within(a, b, 4..7, e) \/ Opposite(a, b, 4..7, e))
    [] OTHER -> Within(a, b, 1..Dim(ty), e)
(* at the very tolerance a quaternion may be on either side *)
Edge(ty, a, b, e) ==
  LET s == IF ty = "Q" THEN 1..4 ELSE IF ty = "D" THEN 4..7 ELSE {} IN
  \E i \in s : VAbs(a[i] - b[i]) = e \/ VAbs(a[i] + b[i]) = e

(* square roots: Root(n) is sqrt(n) * 2^k rounded down, with as many binary     *)
(* digits as fit                                                               *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF lo = hi THEN lo
                      ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN ISqrtIn(n, mid, hi) ELSE ISqrtIn(n, lo, mid - 1)
ISqrt(n) == ISqrtIn(n, 0, 46340)
RECURSIVE RootBy(_, _)
RootBy(n, s) == IF n < 250000000 /\ s < 16384 THEN RootBy(4 * n, 2 * s) ELSE [r |-> ISqrt(n), s |-> s]
Root(n) == IF n = 0 THEN [r |-> 0, s |-> 1] ELSE RootBy(n, 1)

(* the register an operation writes becomes this *)
Step(ty, op, x) ==
  CASE op.op = "load" -> op.v
    [] op.op = "all" -> Same(ty, op.c)
    [] op.op = "none" -> Zero(ty)
    [] op.op = "add" -> Add(x[op.a], x[op.b])
    [] op.op = "sub" -> Sub(x[op.a], x[op.b])
    [] op.op = "neg" -> Neg(x[op.a])
    [] op.op = "pos" -> x[op.a]
    [] op.op = "mul" -> Mul(x[op.a], op.n, op.d)
    [] OTHER -> x[op.r]
=============================================================================
