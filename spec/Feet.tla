-------------------------------- MODULE Feet --------------------------------
(* Footsteps: convex boxes (corners clockwise) in 1/16 of a unit, placed by     *)
(* moves <<x, y, theta>> (1/16 of a unit, 1e-4 rad). Whether two boxes overlap  *)
(* is decided by separating lines, with a small margin: "hit", "free", or       *)
(* "touch" where rounding may decide either way.                                *)
(* A machine over a requested move: it is set, clipped to the reach ellipse,    *)
(* and turned back until the feet do not collide.                              *)
EXTENDS Trig, FiniteSets
FAbs(x) == IF x < 0 THEN 0 - x ELSE x
Eps == 3

Placed(box, m) == LET c == CosQ(m[3]) s == SinQ(m[3]) IN
  [i \in 1..Len(box) |-> << m[1] + TRnd(c * box[i][1] - s * box[i][2], TS), m[2] + TRnd(s * box[i][1] + c * box[i][2], TS) >>]
Nxt(p, i) == p[(i % Len(p)) + 1]
(* how far the point q is to the left of the side i of p (outside), times the length of the side *)
Outside(p, i, q) == LET u == p[i] v == Nxt(p, i) IN (v[1] - u[1]) * (q[2] - u[2]) - (v[2] - u[2]) * (q[1] - u[1])
Len1(p, i) == LET u == p[i] v == Nxt(p, i) IN FAbs(v[1] - u[1]) + FAbs(v[2] - u[2])
Apart(p, q) == \E i \in 1..Len(p) : LET l == Eps * Len1(p, i) IN \A j \in 1..Len(q) : Outside(p, i, q[j]) >= l
Reaches(p, q) == \A i \in 1..Len(p) : LET l == Eps * Len1(p, i) IN \E j \in 1..Len(q) : Outside(p, i, q[j]) <= 0 - l
Verdict(p, q) == IF Apart(p, q) \/ Apart(q, p) THEN "free" ELSE IF Reaches(p, q) /\ Reaches(q, p) THEN "hit" ELSE "touch"
(* the moving box placed by m *)
Meets(fixed, moving, m) == Verdict(fixed, Placed(moving, m))

(* ------------------------------------------------ turning a move back *)
Turned(m, t) == << m[1], m[2], t >>
Between(t, full) == IF full >= 0 THEN 0 <= t /\ t <= full ELSE full <= t /\ t <= 0
Part(full, d) == IF full >= 0 THEN (full + d \div 2) \div d ELSE 0 - ((d \div 2 - full) \div d)
(* the orientation t is a correct answer for the requested move m *)
GoodTurn(fixed, moving, m, t) ==
  /\ Between(t, m[3])
  /\ t = 0 \/ Meets(fixed, moving, Turned(m, t)) # "hit"
  /\ Meets(fixed, moving, Turned(m, 0)) = "free" => Meets(fixed, moving, Turned(m, t)) # "hit"
(* it is at most a thirty-second of the request short of colliding *)
Furthest(fixed, moving, m, t) == \E d \in { 32, 64, 128 } : Meets(fixed, moving, Turned(m, t + Part(m[3], d))) # "free"
(* a reference: halving n times *)
RECURSIVE Halve(_, _, _, _, _, _)
Halve(fixed, moving, m, lo, hi, n) ==
  IF n = 0 THEN lo ELSE LET mid == (lo + hi) \div 2 IN
  IF Meets(fixed, moving, Turned(m, mid)) = "free" THEN Halve(fixed, moving, m, mid, hi, n - 1) ELSE Halve(fixed, moving, m, lo, mid, n - 1)
TurnedBack(fixed, moving, m) == IF Meets(fixed, moving, m) = "free" THEN m[3] ELSE Halve(fixed, moving, m, 0, m[3], 5)

(* --------------------------------------------------------- the ellipse *)
(* x, y in 1/16 of a unit, half axes a, b (units, may be given negative): (x/a)^2 + (y/b)^2, times 10^6 *)
Ratio(x, a) == TRnd(1000 * x, 16 * FAbs(a))
Inside(m, a, b) == LET u == Ratio(m[1], a) v == Ratio(m[2], b) IN FAbs(u) < 20000 /\ FAbs(v) < 20000 /\ u * u + v * v < 997000
Beyond(m, a, b) == LET u == Ratio(m[1], a) v == Ratio(m[2], b) IN FAbs(u) > 2000 \/ FAbs(v) > 2000 \/ u * u + v * v > 1003000
(* o is on the ellipse in the direction of m; in 1/16 of a unit *)
OnEllipse(o, a, b) == LET u == Ratio(o[1], a) v == Ratio(o[2], b) e == 4000 + 70000 \div FAbs(a) + 70000 \div FAbs(b) IN
   FAbs(u) < 1200 /\ FAbs(v) < 1200 /\ FAbs(u * u + v * v - 1000000) <= e
SameWay(m, o) == /\ m[1] * o[1] + m[2] * o[2] > 0
                 /\ FAbs(m[1] * o[2] - m[2] * o[1]) <= 2 * (FAbs(m[1]) + FAbs(m[2])) + FAbs(o[1]) + FAbs(o[2])

(* ------------------------------------------------- crossing of segments *)
Den(s) == (s[4][1] - s[3][1]) * (s[2][2] - s[1][2]) - (s[2][1] - s[1][1]) * (s[4][2] - s[3][2])
(* where on the segment s[1] s[2] it crosses the other, times Den *)
OnA(s) == (s[4][1] - s[3][1]) * (s[3][2] - s[1][2]) - (s[4][2] - s[3][2]) * (s[3][1] - s[1][1])
OnB(s) == (s[2][1] - s[1][1]) * (s[3][2] - s[1][2]) - (s[2][2] - s[1][2]) * (s[3][1] - s[1][1])
Strictly(n, d) == IF d > 0 THEN 0 < n /\ n < d ELSE d < n /\ n < 0
Past(n, d) == IF d > 0 THEN n < 0 \/ n > d ELSE n > 0 \/ n < d
Crosses(s) == LET d == Den(s) IN d # 0 /\ Strictly(OnA(s), d) /\ Strictly(OnB(s), d)
Misses(s) == LET d == Den(s) IN d = 0 \/ Past(OnA(s), d) \/ Past(OnB(s), d)
(* o (1/16 of a unit) is the crossing *)
CrossingAt(s, o) == LET d == Den(s) n == OnA(s) IN
  \A k \in 1..2 : FAbs(o[k] * d - 16 * (s[1][k] * d + n * (s[2][k] - s[1][k]))) <= 2 * FAbs(d)
=============================================================================
