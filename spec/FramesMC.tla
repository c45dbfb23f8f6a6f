------------------------------ MODULE FramesMC ------------------------------
(* Every short program on a few frames; the laws of changing frames.          *)
EXTENDS Frames, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES kind, fr, reg, ops
vars == <<kind, fr, reg, ops>>
F(v, d) == [v |-> v, d |-> d]
FramePairs == { << F(<<0,-1,0, 1,0,0, 0,0,1, 2,-1,3>>, 1), F(<<9,12,0, -12,9,0, 0,0,15, 15,15,-30>>, 15) >>,
                << F(<<1,-2,2, 2,-1,-2, 2,2,1, 3,0,-6>>, 3), F(<<0,0,1, 1,0,0, 0,1,0, 0,4,1>>, 1) >>,
                << F(<<2,3,6, 3,-6,2, 6,2,-3, 7,-7,14>>, 7), F(<<5,0,0, 0,4,-3, 0,3,4, -5,10,0>>, 5) >> }
Loads(K) == CASE K = "T" -> { [op |-> "load", r |-> r, v |-> v, d |-> 3] : r \in {1, 2}, v \in { <<1,-2,2, 2,-1,-2, 2,2,1, 3,-2,1>> } }
              [] K \in { "V", "P" } -> { [op |-> "load", r |-> r, v |-> v, d |-> 2] : r \in {1, 2}, v \in { <<1,2,-3,4,-5,7>> } }
              [] K = "X" -> { [op |-> "load", r |-> r, v |-> v, d |-> 2] : r \in {1, 2}, v \in { <<4,-5,7>>, <<0,0,0>> } }
              [] OTHER -> { [op |-> "load", r |-> r, v |-> v, d |-> 2] : r \in {1, 2}, v \in { <<4,-5,3>> } }
Changes(K) == IF K = "L" THEN { [op |-> "ch", f |-> f, inv |-> 0, h |-> 1, a |-> a, r |-> r, ta |-> ta, tb |-> tb] : f \in {"in", "out"}, a \in 1..2, r \in 1..2, ta \in {-1, 0, 1}, tb \in {0, 1} }
              ELSE { [op |-> "ch", f |-> f, inv |-> i, h |-> x, a |-> a, r |-> r] :
                       f \in (IF K = "X" THEN {"in", "out"} ELSE {"out"}), i \in 0..1, x \in (IF K = "T" THEN {1, 2, 3, 4} ELSE {1, 2}), a \in 1..2, r \in 1..2 }
Fr == [i \in 1..2 |-> Motion12(fr[i].v, fr[i].d)]
Big(x) == IF kind = "T" THEN x.d > 225 ELSE x.d > 500
Init == /\ kind \in { "V", "P", "X", "T", "L" }
        /\ fr \in FramePairs
        /\ \E o \in Loads(kind) : ops = <<o>> /\ o.r = 1 /\ reg = [i \in 1..3 |-> IF i = o.r THEN Step(kind, o, Fr, <<>>) ELSE Zero(kind)]
Next == /\ Len(ops) < DEPTH
        /\ \E o \in Changes(kind) \cup Loads(kind) :
             /\ (o.op = "ch" /\ o.f = "in") => o.a = o.r
             /\ LET x == Step(kind, o, Fr, reg) IN ~Big(x) /\ reg' = [reg EXCEPT ![o.r] = x]
             /\ ops' = Append(ops, IF EMIT THEN o ELSE 0)
        /\ IF EMIT /\ Len(ops') = DEPTH THEN PrintT(<<"H", ToJson([kind |-> kind, frames |-> fr, ops |-> ops'])>>) ELSE TRUE
        /\ UNCHANGED <<kind, fr>>
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN <<kind, fr, reg, ops>> ELSE <<kind, fr, reg, Len(ops)>>
Same(x, y) == IF kind = "T" THEN SameMotion(x, y) ELSE x = y
Turns == IF kind = "L" THEN { AxisRot(3, 3, 4, 5), AxisRot(3, 0, -1, 1) } ELSE { Fr[1], Fr[2] }
Laws == \A i \in 1..2 : LET x == IF kind = "T" THEN reg[i] ELSE Reduce(reg[i]) IN \A f \in Turns :
  \* the transposed form undoes the change, both ways
  /\ Same(Change(kind, f, 1, Change(kind, f, 0, x)), x)
  /\ Same(Change(kind, f, 0, Change(kind, f, 1, x)), x)
  \* where the frame stands does not matter
  /\ Same(Change(kind, [f EXCEPT !.t = <<1, 2, 3>>], 0, x), Change(kind, f, 0, x))
  \* one frame after the other
  /\ \A g \in Turns : f.d * g.d * x.d < 4000 =>
        Same(Change(kind, f, 0, Change(kind, g, 0, x)), Turned(kind, MMul(f.m, g.m), f.d * g.d, x))
  \* lengths are kept; rotations stay rotations
  /\ LET y == Change(kind, f, 0, x) IN
     IF kind = "T" THEN y.d > 300 \/ IsRotationM(y.m, y.d)
     ELSE /\ y.d > 120 \/ x.d > 120 \/ Dot(y.v, y.v) * x.d * x.d = Dot(x.v, x.v) * y.d * y.d
          /\ kind = "L" => y.w[1] * x.d = x.w[1] * y.d
=============================================================================
