----------------------------- MODULE FeetTrace -----------------------------
(* Recorded footsteps. The state is the move as last shown.                   *)
EXTENDS Feet, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, m, ok
vars == <<h, k, m, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ m = <<0, 0, 0>>
In16(p) == [i \in 1..Len(p) |-> <<16 * p[i][1], 16 * p[i][2]>>]
Agrees(v, r) == /\ v = "hit" => r = 1
                /\ v = "free" => r = 0
(* boxes 1 and 2: the feet, left and right *)
Good(boxes, op, o) ==
  CASE op.op = "move" -> o.m = << 16 * op.m[1], 16 * op.m[2], op.m[3] >>
    [] op.op = "clip" -> /\ Inside(m, op.a, op.b) => o.r = 0
                         /\ Beyond(m, op.a, op.b) => o.r = 1
                         /\ o.turnkept = 1
                         /\ o.r = 0 => o.placekept = 1 /\ o.m = m
                         /\ o.r = 1 => OnEllipse(o.m, op.a, op.b) /\ SameWay(m, o.m)
    [] op.op = "avoid" -> LET f == IF op.left = 1 THEN boxes[1] ELSE boxes[2] g == IF op.left = 1 THEN boxes[2] ELSE boxes[1] IN
                         /\ Agrees(Meets(f, g, m), o.r)
                         /\ o.placekept = 1
                         /\ o.r = 0 => o.turnkept = 1 /\ o.m = m
                         /\ o.r = 1 => GoodTurn(f, g, m, o.m[3]) /\ Furthest(f, g, m, o.m[3])
    [] op.op = "turn" -> LET f == boxes[op.f] g == boxes[op.g] IN
                         /\ o.placekept = 1
                         /\ GoodTurn(f, g, m, o.m[3])
                         /\ Meets(f, g, m) # "free" => Furthest(f, g, m, o.m[3])
    [] op.op = "box" -> LET p == Placed(boxes[op.f], m) IN
                         /\ Len(o.p) = Len(p) /\ \A i \in 1..Len(p) : \A c \in 1..2 : FAbs(o.p[i][c] - p[i][c]) <= 2
    [] op.op = "hit" -> Agrees(Verdict(Placed(boxes[op.f], << 16 * op.p[1], 16 * op.p[2], op.p[3] >>), Placed(boxes[op.g], << 16 * op.q[1], 16 * op.q[2], op.q[3] >>)), o.r)
    [] op.op = "seg" -> /\ Crosses(op.s) => o.r = 1
                        /\ Misses(op.s) => o.r = 0
                        /\ o.r = 1 => CrossingAt(op.s, o.c)
    [] OTHER -> FALSE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               boxes == [i \in 1..Len(Recs[h].boxes) |-> In16(Recs[h].boxes[i])]
               good == Good(boxes, op, o) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ m' = o.m
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
