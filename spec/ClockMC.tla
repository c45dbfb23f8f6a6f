------------------------------ MODULE ClockMC ------------------------------
(* Every program over the neighbourhoods of the limits. Laws: the conversion is  *)
(* monotone, stays within the ROS range, changes nothing within it, and the     *)
(* round trip is the identity there.                                           *)
EXTENDS Clock, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES q, r, ops
vars == <<q, r, ops>>
Starts == { QiMin, QiMax, RosMin, RosMax, <<0, 0, 0>>, <<-1, 999999999, 999999999>>, <<1, 479988105, 123456789>>, <<2, 147483647, 999999999>>, <<2, 147483648, 0>>, <<-2, 0, 1>>, <<4, 294967296, 0>> }
Steps == { <<0, 0, 1>>, <<-1, 999999999, 999999999>>, <<0, 1, 0>>, <<-1, 999999999, 0>>, <<0, 0, 999999999>>, <<4, 294967296, 0>>, <<-5, 705032704, 0>> }
Init == q \in Starts /\ r = RosMin /\ ops = <<[op |-> "set", q |-> q]>>
Say(o) == ops' = Append(ops, IF EMIT THEN o ELSE [op |-> "any"])
Next == /\ Len(ops) < DEPTH
        /\ \/ \E s \in Steps : Fits(Plus(q, s)) /\ q' = Plus(q, s) /\ r' = r /\ Say([op |-> "advance", q |-> s])
           \/ r' = ToRos(q) /\ q' = q /\ Say([op |-> "to"])
           \/ q' = ToQi(r) /\ r' = r /\ Say([op |-> "back"])
        /\ IF EMIT /\ Len(ops') = DEPTH THEN PrintT(<<"H", ToJson([ops |-> ops'])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN vars ELSE <<q, r, Len(ops)>>
Laws == EMIT \/
  /\ Fits(q) /\ Fits(r)
  /\ ~Less(r, RosMin) /\ ~Less(RosMax, r)
  /\ ToRos(ToQi(r)) = r
  /\ ToRos(q) = q <=> ~Less(q, RosMin) /\ ~Less(RosMax, q)
  /\ \A s \in Steps : LET w == Plus(q, s) IN (Less(q, w) => ~Less(ToRos(w), ToRos(q))) /\ Plus(w, Plus(<<0, 0, 0>>, <<-1 - s[1], G - 1 - s[2], G - s[3]>>)) = q
=============================================================================
