---------------------------- MODULE ClockTrace ----------------------------
(* Recorded programs of conversions. The state is the duration and the ROS time. *)
EXTENDS Clock, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, q, r, ok
vars == <<h, k, q, r, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ q = <<0, 0, 0>> /\ r = RosMin
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1] IN
           /\ q' = CASE op.op = "set" -> op.q [] op.op = "advance" -> Plus(q, op.q) [] op.op = "back" -> ToQi(r) [] OTHER -> q
           /\ r' = CASE op.op = "to" -> ToRos(q) [] op.op = "ros" -> op.r [] OTHER -> r
           /\ ok' = (o.q = q' /\ o.r = r')
           /\ IF ok' THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
