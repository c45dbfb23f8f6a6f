------------------------------- MODULE PoseMC -------------------------------
(* Every short program over two pose registers; the group laws hold in it.    *)
EXTENDS Pose, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES reg, ops
vars == <<reg, ops>>
A0 == <<1, 0, 1>>  A90 == <<0, 1, 1>>  A270 == <<0, -1, 1>>  A180 == <<-1, 0, 1>>  A345 == <<3, 4, 5>>
Loads == { [op |-> "load", xyz |-> x[1], d |-> x[2], rpy |-> x[3]] : x \in
  { <<<<0,0,0>>, 1, <<A0, A0, A0>>>>,  <<<<1,-2,3>>, 2, <<A0, A0, A0>>>>,
    <<<<1,0,0>>, 1, <<A0, A90, A345>>>>, <<<<0,5,0>>, 1, <<A180, A0, A270>>>>, <<<<0,0,0>>, 1, <<A345, A0, A0>>>> } }
Init == reg = [i \in 1..2 |-> IdMotion] /\ ops = <<>>
Fits(m) == m.d <= 100
Step(op, r, m) == /\ Fits(m) /\ reg' = [reg EXCEPT ![r] = m] /\ ops' = Append(ops, op)
Next == /\ Len(ops) < DEPTH
        /\ \E r \in 1..2 :
           \/ \E l \in Loads : Step(l @@ [r |-> r], r, MotionOf(l.xyz, l.d, l.rpy))
           \/ \E a \in 1..2, b \in 1..2 : Step([op |-> "mul", r |-> r, a |-> a, b |-> b], r, Compose(reg[a], reg[b]))
           \/ \E a \in 1..2 : Step([op |-> "inv", r |-> r, a |-> a], r, Inverse(reg[a]))
           \/ Step([op |-> "trip", r |-> r, a |-> 3 - r, via |-> "ptree"], r, reg[3 - r])
Spec == Init /\ [][Next]_vars
Group == LET p == reg[1] q == reg[2] IN
  /\ IsRotationM(p.m, p.d)
  /\ SameMotion(Compose(p, Inverse(p)), IdMotion) /\ SameMotion(Compose(Inverse(p), p), IdMotion)
  /\ Compose(p, IdMotion) = p /\ Compose(IdMotion, p) = p
  /\ (p.d * q.d <= 200) => SameMotion(Inverse(Compose(p, q)), Compose(Inverse(q), Inverse(p)))
  /\ (p.d * q.d <= 50) => Compose(Compose(p, q), p) = Compose(p, Compose(q, p))
(* a text is a triple whatever blanks separate its numbers, and never with another one added *)
ASSUME LET num == <<"-", "1", ".", "2", "5">> bad == <<"1", "x">>
           T(a, b, c, s) == a \o s \o b \o s \o c IN
  /\ \A s \in { <<" ">>, <<"\t", " ">>, <<"\n">> } :
       /\ Triple(T(num, num, num, s)) = [ok |-> TRUE, v |-> <<<<-5, 4>>, <<-5, 4>>, <<-5, 4>>>>]
       /\ ~Triple(T(num, bad, num, s)).ok
       /\ ~Triple(T(num, num, num, s) \o s \o num).ok
  /\ ~Triple(num \o <<" ">> \o num).ok
  /\ Number(<<"1", "e", "-", "2">>) = [ok |-> TRUE, v |-> <<1, 100>>]
  /\ \A x \in { <<"1", "e">>, <<".">>, <<"-">>, <<"1", "-">>, <<"+", "-", "1">>, <<>> } : ~Number(x).ok
Emitted == (EMIT /\ Len(ops) = DEPTH) => PrintT(<<"H", ToJson([ops |-> ops])>>)
=============================================================================
