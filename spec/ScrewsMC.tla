------------------------------ MODULE ScrewsMC ------------------------------
(* Every short program on a few paths; moving is additive, the endpoints of   *)
(* an interpolation are its arguments.                                        *)
EXTENDS Screws, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES path, reg, ops
vars == <<path, reg, ops>>
Sc(u, g, a, b, j, p, e, h) == [u |-> u, g |-> g, a |-> a, b |-> b, j |-> j, p |-> p, e |-> e, h |-> h]
Bases == { [v |-> IdMotion.m \o <<0,0,0>>, d |-> 1], [v |-> <<0,-1,0, 1,0,0, 0,0,1, 2,-1,3>>, d |-> 1], [v |-> <<3,-4,0, 4,3,0, 0,0,5, 5,0,-10>>, d |-> 5] }
Paths == { [base |-> b, s |-> s] : b \in Bases, s \in {
   Sc(<<0,0,1>>, 1, 0, 1, 0, <<1,2,0>>, 1, 1), Sc(<<1,2,2>>, 3, 1, 0, 0, <<1,0,-1>>, 1, 2), Sc(<<1,0,0>>, 1, 0, 0, 0, <<0,3,1>>, 1, -1),
   Sc(<<2,-2,1>>, 3, -1, 1, 0, <<0,1,2>>, 2, 0), Sc(<<0,1,0>>, 1, 0, 0, 7, <<2,0,1>>, 1, 1) } }
Init == path \in { p \in Paths : EMIT => p.base.d = 5 } /\ reg = <<0, 0, 0>> /\ ops = <<>>
Reach(s, k) == Abs(k) <= 4 /\ Abs(k * s.a) <= 4
Do(op) == Reach(path.s, Step(op, reg)) /\ reg' = [reg EXCEPT ![op.r] = Step(op, reg)] /\ ops' = Append(ops, op) /\ UNCHANGED path
Next == /\ Len(ops) < DEPTH
        /\ \/ \E r \in 1..2, k \in { -1, 0, 1, 2 } : Do([op |-> "load", r |-> r, k |-> k])
           \/ \E r \in 1..2, a \in 1..2, b \in 1..2, n \in 0..2, f \in { "ret", "in" } :
                /\ Unique(path.s, reg[b] - reg[a]) /\ ((reg[b] - reg[a]) * n) % 2 = 0
                /\ Do([op |-> "mean", f |-> f, r |-> r, a |-> a, b |-> b, n |-> n, m |-> 2])
           \/ \E r \in 1..2, a \in 1..2, k \in { -1, 1 } : Do([op |-> "go", f |-> "ret", r |-> r, a |-> a, k |-> k])
           \/ \E a \in 1..2, b \in 1..2 : Unique(path.s, reg[b] - reg[a]) /\ Do([op |-> "log", f |-> "ret", r |-> 3, a |-> a, b |-> b])
           \/ Unique(path.s, reg[2] - reg[1]) /\ Do([op |-> "trip", f |-> "ret", r |-> 3, a |-> 1, b |-> 2])
Spec == Init /\ [][Next]_vars
Laws == LET s == path.s i == reg[1] j == reg[2] b == Motion12(path.base.v, path.base.d) IN
  (s.j = 0 /\ ~EMIT) =>
             /\ Abs(i + j) <= 4 /\ At(s, i).d * At(s, j).d <= 10000 => SameMotion(Compose(At(s, i), At(s, j)), At(s, i + j))
             /\ At(s, i).d <= 500 => SameMotion(Inverse(At(s, i)), At(s, -i))
             /\ At(s, i).d <= 1000 => IsRotationM(At(s, i).m, At(s, i).d)
             /\ LET t == Twist(s, 1) u == Twist(s, i) IN \A k \in 1..3 : Abs(u.w[k] - i * t.w[k]) <= 30 /\ Abs(u.v[k] - i * t.v[k]) <= 300
             \* the axis is turned by no rotation about it
             /\ MVec(At(s, i).m, s.u) = VScale(At(s, i).d, s.u)
Seen == IF EMIT THEN <<path, reg, ops>> ELSE <<path, reg, Len(ops)>>
Emitted == (EMIT /\ Len(ops) = DEPTH) => PrintT(<<"H", ToJson([base |-> path.base, s |-> path.s, ops |-> ops])>>)
=============================================================================
