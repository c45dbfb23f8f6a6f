------------------------------ MODULE BodiesMC ------------------------------
(* Every program of placing and combining a few bodies. Laws: the compound's     *)
(* moments are the sum of the parts' however it was put together, agree with    *)
(* the textbook formula, and do not depend on the common frame.                *)
EXTENDS Bodies, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES regs, acc, ops
vars == <<regs, acc, ops>>
N == 3
QT == <<1, 0, 1>>
Rots == { <<QT, QT, QT>>, <<<<0, 1, 1>>, QT, <<0, -1, 1>>>>, <<QT, <<-1, 0, 1>>, <<0, 1, 1>>>>, <<QT, QT, <<3, 4, 5>>>>, <<<<4, -3, 5>>, QT, QT>> }
Bods == { <<2, <<4, 0, 0, 6, 0, 8>>>>, <<1, <<6, -2, 2, 4, 1, 6>>>>, <<4, <<0, 0, 0, 0, 0, 0>>>> }
Centres == { <<0, 0, 0>>, <<1, -2, 3>>, <<-2, 0, 1>> }
None == [M |-> 0]
Init == regs = [i \in 1..N |-> None] /\ acc = VScale(0, I9) /\ ops = <<>>
Say(o) == ops' = Append(ops, IF EMIT THEN o ELSE 0)
Next == /\ Len(ops) < DEPTH
        /\ \/ \E i \in 1..N, b \in Bods, r \in Rots, t \in Centres :
                /\ EMIT \/ (t # <<0, 0, 0>> /\ r[1][1] # 0)
                /\ regs[i] = None
                /\ \A j \in 1..(i - 1) : regs[j] # None
                /\ EMIT => (i = 1 => b[1] # 4) /\ (i = 3 => r[3] = QT)
                /\ regs' = [regs EXCEPT ![i] = Body(5, b[1], Full9(b[2]), Placement(r, t))]
                /\ acc' = acc
                /\ Say([op |-> "place", r |-> i, m |-> b[1], I |-> b[2], rpy |-> r, t |-> t])
           \/ \E i \in 1..N, j \in 1..N, k \in 1..N :
                /\ Cardinality({i, j, k}) = 3 /\ regs[i] # None /\ regs[j] # None
                /\ regs[i].M + regs[j].M <= 12
                /\ regs' = [regs EXCEPT ![k] = Combine(regs[i], regs[j])]
                /\ acc' = acc
                /\ Say([op |-> "squash", a |-> i, b |-> j, c |-> k])
           \/ \E m \in 1..2, p \in Centres :
                /\ ops # <<>> /\ regs' = regs
                /\ acc' = VAdd(acc, PointInertia(m, p))
                /\ Trace9(acc') < 40
                /\ Say([op |-> "add", m |-> m, p |-> p])
        /\ IF EMIT /\ Len(ops') = DEPTH THEN PrintT(<<"H", ToJson([D |-> 5, ops |-> ops'])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN vars ELSE <<regs, acc, ops>>
(* the same matter seen from another frame: rotated by g (a quarter turn) and moved by t *)
Moved(b, g, t) == LET Rh == MVec(g, b.h) X == Outer(Rh, t) IN
  [M |-> b.M, h |-> VAdd(Rh, VScale(b.M, t)),
   S |-> VAdd(Congr(g, b.S), VScale(25, VAdd(VAdd(X, MTr(X)), VScale(b.M, Outer(t, t))))),
   r |-> [m |-> MMul(g, b.r.m), t |-> b.r.t, d |-> b.r.d]]
G == << 0,0,1, 1,0,0, 0,1,0 >>
Laws == EMIT \/
  /\ \A i \in 1..N : regs[i] # None =>
       LET b == regs[i] w == Moved(b, G, <<1, -1, 2>>) IN
       /\ OwnInertia(5, w) = OwnInertia(5, b)
       /\ MTr(b.S) = b.S
       /\ \A k \in {1, 5, 9} : Central(5, b)[k] >= 0 - 25 * 4 * b.M * b.M
  /\ \A i, j \in 1..N : i # j /\ regs[i] # None /\ regs[j] # None /\ regs[i].M + regs[j].M <= 12 =>
       LET c == Combine(regs[i], regs[j]) IN
       /\ VScale(regs[i].M * regs[j].M, Central(5, c)) = Textbook(5, regs[i], regs[j])
       /\ Central(5, c) = Central(5, Combine(regs[j], regs[i]))
       /\ Combine(Moved(regs[i], G, <<0, 2, 1>>), Moved(regs[j], G, <<0, 2, 1>>)).S = Moved(c, G, <<0, 2, 1>>).S
  /\ MTr(acc) = acc
  /\ acc[1] + acc[5] >= acc[9]
=============================================================================
