-------------------------------- MODULE Arcs --------------------------------
(* Paths made of a turn of radius R, a straight line, and a turn of radius R,   *)
(* from the origin (heading along x) to a target [x, y, a, b, r]: lengths in    *)
(* units, heading a * atan2(4,3) + b * (pi/2). Everything about the circles and  *)
(* the lengths of the straight parts is exact in integers; the headings shown   *)
(* are unit vectors times 10^4.                                                *)
EXTENDS Motions

Dirs(q) == Turn(q.a, q.b)
(* r is a multiple of the denominator of the direction *)
Fits(q) == q.r % Dirs(q).n = 0
(* centres of the left ("L") and right ("R") circles at the start and at the target *)
Start(q, side) == IF side = "L" THEN << 0, q.r >> ELSE << 0, 0 - q.r >>
Goal(q, side) == LET d == Dirs(q) k == IF side = "L" THEN q.r \div d.n ELSE 0 - q.r \div d.n IN << q.x - k * d.s, q.y + k * d.c >>
Sq(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
(* the square of the length of the straight part when turning e first and f at the end *)
Straight(q, e, f) == LET s == Sq(Start(q, e), Goal(q, f)) IN IF e = f THEN s ELSE s - 4 * q.r * q.r
Turnings == { <<"L", "L">>, <<"L", "R">>, <<"R", "L">>, <<"R", "R">> }
Shortest(q) == LET v == { Straight(q, t[1], t[2]) : t \in Turnings } IN CHOOSE x \in v : \A y \in v : x <= y
Reachable(q) == q.x * q.x + q.y * q.y >= 16 * q.r * q.r

(* ------------------------------------------------ the path shown *)
(* o.p1, o.p2: the ends of the straight part; o.h: its heading <<cos, sin>> *)
Close(x, y, t) == Abs(x - y) <= t
Rnd(x, n) == IF x >= 0 THEN (2 * x + n) \div (2 * n) ELSE 0 - ((n - 2 * x) \div (2 * n))
(* the point of the circle around c that is left with heading h when turning to this side *)
OnCircle(c, r, side, h, p) == LET k == IF side = "L" THEN 1 ELSE -1 IN
  Close(p[1], c[1] + k * Rnd(r * h[2], 10000), 3) /\ Close(p[2], c[2] - k * Rnd(r * h[1], 10000), 3)
Joined(q, o) == \E t \in Turnings :
  /\ OnCircle(Start(q, t[1]), q.r, t[1], o.h, o.p1)
  /\ OnCircle(Goal(q, t[2]), q.r, t[2], o.h, o.p2)
  /\ Close(Straight(q, t[1], t[2]), Shortest(q), 10 + Shortest(q) \div 300000)   \* single precision decides ties
Forward(o) == LET d == << o.p2[1] - o.p1[1], o.p2[2] - o.p1[2] >> IN
  /\ d[1] * o.h[1] + d[2] * o.h[2] >= -30000
  /\ Abs(d[1] * o.h[2] - d[2] * o.h[1]) <= 40000
LengthShown(q, o) == LET d == << o.p2[1] - o.p1[1], o.p2[2] - o.p1[2] >> IN
  Close(d[1] * d[1] + d[2] * d[2], Shortest(q), 40 + 6 * ISqrt(Shortest(q)))
Path(q, o) == /\ o.n = 3 /\ o.last = 1
              /\ \A i \in 1..2 : Abs(o.h[i]) <= 10000 /\ Abs(o.p1[i]) < 30000 /\ Abs(o.p2[i]) < 30000
              /\ o.h = o.h2 \/ (Close(o.h[1], o.h2[1], 2) /\ Close(o.h[2], o.h2[2], 2))
              /\ Joined(q, o) /\ Forward(o) /\ LengthShown(q, o)
=============================================================================
