------------------------------- MODULE Angles -------------------------------
(* Angles and intervals. An angle is a direction (a point of the unit circle     *)
(* with rational coordinates <<c, s, d>>) or a fraction n/240 of a turn, plus    *)
(* whole turns. The state: a list of directions with weights, and a list of     *)
(* lists of numbers to clip. Angles are observed in 1e-7 rad.                   *)
EXTENDS Integers, Sequences, FiniteSets
AAbs(x) == IF x < 0 THEN 0 - x ELSE x
AMul(a, b) == a * b
Turn == 240
PiE7 == 31415927
(* the representative in ]-half a turn, half a turn] *)
Reduce(n) == LET r == n % Turn IN IF r > Turn \div 2 THEN r - Turn ELSE r
E7(n) == IF n >= 0 THEN AMul(n, 2617994) \div 10 ELSE 0 - (AMul(0 - n, 2617994) \div 10)
(* difference of two observed angles up to whole turns *)
Gap(a, b) == LET d == AAbs(a - b) IN IF d > PiE7 THEN AAbs(d - 2 * PiE7) ELSE d

Grain == 65
Circle == { <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>> }
  \cup { <<x * 3, y * 4, 5>> : x \in {-1, 1}, y \in {-1, 1} } \cup { <<x * 4, y * 3, 5>> : x \in {-1, 1}, y \in {-1, 1} }
  \cup { <<x * 5, y * 12, 13>> : x \in {-1, 1}, y \in {-1, 1} } \cup { <<x * 12, y * 5, 13>> : x \in {-1, 1}, y \in {-1, 1} }
Cosine(p) == AMul(p[1], Grain \div p[3])
Sine(p) == AMul(p[2], Grain \div p[3])
RECURSIVE SumX(_, _), SumY(_, _), Weight(_), MaxTurns(_)
SumX(a, w) == IF a = <<>> THEN 0 ELSE AMul(w[1], Cosine(a[1])) + SumX(Tail(a), Tail(w))
SumY(a, w) == IF a = <<>> THEN 0 ELSE AMul(w[1], Sine(a[1])) + SumY(Tail(a), Tail(w))
Weight(w) == IF w = <<>> THEN 0 ELSE w[1] + Weight(Tail(w))
MaxTurns(a) == IF a = <<>> THEN 0 ELSE LET m == MaxTurns(Tail(a)) IN IF AAbs(a[1][4]) > m THEN AAbs(a[1][4]) ELSE m
Ones(a) == [i \in 1..Len(a) |-> 1]
WellFormed(a, w) == Len(a) = Len(w) /\ Len(a) > 0 /\ \A i \in 1..Len(w) : w[i] > 0
Null(a, w) == SumX(a, w) = 0 /\ SumY(a, w) = 0
(* the mean vector is far enough from null to have a direction in any arithmetic *)
Clear(a, w) == LET x == SumX(a, w) y == SumY(a, w) m == AMul(Grain, Weight(w)) \div 500 + 1 IN AMul(x, x) + AMul(y, y) > AMul(m, m)
(* o = <<cosine, sine>> in 1e-5 points along the weighted sum *)
Along(a, w, o) == LET x == SumX(a, w) y == SumY(a, w) IN
  /\ AMul(x, o[1]) + AMul(y, o[2]) > 0
  /\ AAbs(AMul(x, o[2]) - AMul(y, o[1])) <= AMul(AMul(Grain, Weight(w)), 2 + MaxTurns(a) \div 6) + 2 * (AAbs(x) + AAbs(y))

Clip(lo, hi, v) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
ClipList(lo, hi, l) == [i \in 1..Len(l) |-> Clip(lo, hi, l[i])]
ClipLists(lo, hi, l) == [i \in 1..Len(l) |-> ClipList(lo, hi, l[i])]

Start == [a |-> <<>>, w |-> <<>>, l |-> <<>>]
Step(op, st) ==
  CASE op.op = "push" -> [st EXCEPT !.a = Append(@, op.p), !.w = Append(@, op.w)]
    [] op.op = "weights" -> [st EXCEPT !.w = op.w]
    [] op.op = "clear" -> [st EXCEPT !.a = <<>>, !.w = <<>>]
    [] op.op = "swap" -> [st EXCEPT !.a = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]], !.w = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
    [] op.op = "lists" -> [st EXCEPT !.l = op.l]
    [] op.op = "clip" ->
         IF op.f = "all" THEN [st EXCEPT !.l = ClipLists(op.lo, op.hi, @)]
         ELSE IF op.f = "list" THEN [st EXCEPT !.l[op.i] = ClipList(op.lo, op.hi, @)]
         ELSE [st EXCEPT !.l[op.i][op.j] = Clip(op.lo, op.hi, @)]
    [] OTHER -> st
=============================================================================
