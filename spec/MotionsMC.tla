------------------------------ MODULE MotionsMC ------------------------------
(* Every short program over the registers of each kind; the group laws, and   *)
(* acting twice is acting with the product.                                   *)
EXTENDS Motions, TLC, Json
CONSTANTS KIND, DEPTH, EMIT
VARIABLES reg, ops
vars == <<reg, ops>>
A0 == <<1, 0, 1>>  A90 == <<0, 1, 1>>  A180 == <<-1, 0, 1>>  A345 == <<3, 4, 5>>
M12(mo) == [v |-> mo.m \o mo.t, d |-> mo.d]
LoadsG == { [v |-> <<0,0,0,1>>, d |-> 1, t |-> <<1,0,0>>, e |-> 1], [v |-> <<1,1,1,1>>, d |-> 2, t |-> <<0,2,-1>>, e |-> 1], [v |-> <<-1,1,1,-1>>, d |-> 2, t |-> <<5,1,0>>, e |-> 1] }
Loads(w) ==
  CASE KIND = "G" -> LoadsG
    [] KIND = "T" -> { M12(Compose(Translation(<<1, 2, -3>>), Rpy(A0, A0, A90))), M12(Compose(Translation(<<0, 1, 0>>), Rpy(A345, A90, A0))),
                       M12(Rpy(A180, A0, A0)), M12(Translation(<<0, 0, 2>>)) }
    [] KIND = "R" -> { M12(Rpy(A0, A0, A90)), M12(Rpy(A345, A90, A0)), M12(Rpy(A180, A0, A0)), M12(Rpy(A90, A345, A0)) }
    [] KIND = "Q" -> { [v |-> q[1], d |-> q[2]] : q \in { <<<<1,1,1,1>>, 2>>, <<<<0,0,0,1>>, 1>>, <<<<4,3,0,0>>, 5>>, <<<<-1,1,-1,1>>, 2>> } }
    [] KIND = "P" -> { [v |-> <<1, 2>>, d |-> 1, a |-> 0, b |-> 1], [v |-> <<0, -1>>, d |-> 1, a |-> 1, b |-> 0],
                       [v |-> <<3, 0>>, d |-> 2, a |-> 0, b |-> 2], [v |-> <<0, 0>>, d |-> 1, a |-> -1, b |-> -1] }
OfLoad(x) == CASE KIND = "G" -> Displaced(x.t, x.e, x.v, x.d) [] KIND \in { "T", "R" } -> OfMotion(Motion12(x.v, x.d)) [] KIND = "Q" -> Quat(x.v, x.d)
               [] KIND = "P" -> Planar(x.v[1], x.v[2], x.d, x.a, x.b)
InvForms == IF KIND = "R" THEN { "member" } ELSE { "free" }
Init == reg = [i \in 1..3 |-> Identity] /\ ops = <<>>
Fits(x) == x.mo.d <= 25 /\ x.qd <= 25
Step(op, r, x) == Fits(x) /\ reg' = [reg EXCEPT ![r] = x] /\ ops' = Append(ops, op)
Next == /\ Len(ops) < DEPTH
        /\ \/ \E r \in 1..2, l \in Loads(0) : Step([op |-> "load", r |-> r, x |-> l], r, OfLoad(l))
           \/ \E r \in 1..2, a \in 1..2, b \in 1..2 : Step([op |-> "mul", f |-> "op", r |-> r, a |-> a, b |-> b], r, Mul(KIND, reg[a], reg[b]))
           \/ \E a \in 1..2, b \in 1..2 : Step([op |-> "mul", f |-> "asg", r |-> a, a |-> a, b |-> b], a, Mul(KIND, reg[a], reg[b]))
           \/ \E r \in 1..2, a \in 1..2, f \in InvForms : Step([op |-> "inv", f |-> f, r |-> r, a |-> a], r, Inv(KIND, reg[a]))
Spec == Init /\ [][Next]_vars
Same(x, y) == /\ SameMotion(x.mo, y.mo) /\ x.a = y.a /\ x.b = y.b
              /\ \A i \in 1..4 : x.q[i] * y.qd = y.q[i] * x.qd
Reduced(x) == LET g == GcdSeq(x.v, 1, x.d) IN <<DivSeq(x.v, g), x.d \div g>>
Group == LET p == reg[1] q == reg[2] IN
  /\ Same(Mul(KIND, p, Inv(KIND, p)), Identity) /\ Same(Mul(KIND, Inv(KIND, p), p), Identity)
  /\ Same(Mul(KIND, p, Identity), p) /\ Same(Mul(KIND, Identity, p), p)
  /\ Same(Mul(KIND, p, Diff(KIND, p, q)), q)
  /\ Same(Mul(KIND, Mul(KIND, p, q), p), Mul(KIND, p, Mul(KIND, q, p)))
  /\ LET v == <<1, -2, 3>> i == Image(KIND, q, v, 1) j == Image(KIND, p, i.v, i.d) l == Image(KIND, Mul(KIND, p, q), v, 1) IN
     Reduced(j) = Reduced(l)
Emitted == (EMIT /\ Len(ops) = DEPTH) => PrintT(<<"H", ToJson([kind |-> KIND, ops |-> ops])>>)
=============================================================================
