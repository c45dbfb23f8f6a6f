------------------------------- MODULE FeetMC -------------------------------
(* Every short program of requests on a few pairs of feet. The laws: halving    *)
(* yields correct answers; the verdict does not depend on the order of the      *)
(* boxes or on the place of both; it agrees with common points.                 *)
EXTENDS Feet, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES feet, m, ops
vars == <<feet, m, ops>>
LFoot == << <<80, 50>>, <<80, -38>>, <<-47, -38>>, <<-47, 50>> >>
RFoot == << <<80, 38>>, <<80, -50>>, <<-47, -50>>, <<-47, 38>> >>
Square == << <<40, 40>>, <<40, -40>>, <<-40, -40>>, <<-40, 40>> >>
Kite == << <<60, 0>>, <<10, -30>>, <<-40, 0>>, <<10, 30>> >>
Wedge == << <<70, 10>>, <<-30, -40>>, <<-30, 40>> >>
Feet == { <<LFoot, RFoot>>, <<Square, Kite>>, <<Wedge, Square>>, <<Kite, Wedge>> }
Moves == { <<x, y, t>> : x \in {-30, 0, 60}, y \in {0, 75, 90, -88, 120}, t \in {0, 7000, -12000, 25000} }
Box(b) == [i \in 1..Len(b) |-> <<16 * b[i][1], 16 * b[i][2]>>]
Full(n) == << 16 * n[1], 16 * n[2], n[3] >>
Init == /\ feet \in Feet
        /\ \E n \in Moves : m = Full(n) /\ ops = <<[op |-> "move", m |-> n]>>
Side(left) == IF left = 1 THEN <<Box(feet[1]), Box(feet[2])>> ELSE <<Box(feet[2]), Box(feet[1])>>
Next == /\ Len(ops) < DEPTH
        /\ \/ \E left \in 0..1 : LET s == Side(left) IN
                /\ m' = Turned(m, TurnedBack(s[1], s[2], m))
                /\ ops' = Append(ops, IF EMIT THEN [op |-> "avoid", left |-> left] ELSE [op |-> "any"])
           \/ \E a \in { 60, -80 }, b \in { 40, 140 } :
                /\ m' = m      \* irrational: clipping is judged on what is shown
                /\ ops' = Append(ops, IF EMIT THEN [op |-> "clip", a |-> a, b |-> b] ELSE [op |-> "any"])
           \/ \E n \in Moves :
                /\ Len(ops) = 1 /\ ~EMIT /\ m' = Full(n)
                /\ ops' = Append(ops, [op |-> "any"])
        /\ IF EMIT /\ Len(ops') = DEPTH THEN PrintT(<<"H", ToJson([s |-> 1000, boxes |-> feet, ops |-> ops'])>>) ELSE TRUE
        /\ UNCHANGED feet
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN <<feet, m, ops>> ELSE <<feet, m, Len(ops)>>
Mirror(p) == [i \in 1..Len(p) |-> LET q == p[Len(p) + 1 - i] IN <<q[1], 0 - q[2]>>]
Laws == EMIT \/ \A left \in 0..1 :
  LET s == Side(left) v == Meets(s[1], s[2], m) t == TurnedBack(s[1], s[2], m) p == Placed(s[2], m) IN
  /\ v = "free" => t = m[3]
  /\ v # "free" => GoodTurn(s[1], s[2], m, t) /\ Furthest(s[1], s[2], m, t)
  /\ Verdict(p, s[1]) = v
  /\ Verdict(Placed(s[1], <<160, -480, 0>>), Placed(p, <<160, -480, 0>>)) = v
  /\ LET w == Verdict(Placed(s[1], <<0, 0, 11000>>), Placed(p, <<0, 0, 11000>>)) IN v # w => "touch" \in { v, w }
  /\ Verdict(Mirror(s[1]), Mirror(p)) = v
  /\ Verdict(p, p) = "hit"
  \* a corner of one deep inside the other is a hit; a free pair has no corner in the other
  /\ LET in(q, r) == \A i \in 1..Len(q) : Outside(q, i, r) < 0 - 8 * Len1(q, i) IN
       (\E j \in 1..Len(p) : in(s[1], p[j])) => v = "hit"
=============================================================================
