------------------------------ MODULE AnglesMC ------------------------------
(* Means of all short lists of directions, clips of all small lists of lists,   *)
(* reductions of all fractions of some turns.                                  *)
EXTENDS Angles, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES st, ops
vars == <<st, ops>>
Numbers == {-3, 0, 2, 5}
Shapes == { <<>>, <<<<>>>>, <<<<-3>>>>, <<<<0, 5>>, <<2>>>>, <<<<>>, <<5, -3, 0>>>>, <<<<2, 2>>, <<2>>, <<-3>>>> }
Bounds == { <<0, 2>>, <<-3, 5>>, <<2, 2>>, <<-9, -1>>, <<1, 100>> }
Moves ==
  { [op |-> "push", p |-> p \o <<0>>, w |-> w] : p \in Circle, w \in {1, 3} }
  \cup { [op |-> "push", p |-> p, w |-> w] : p \in { <<-4, 3, 5, -2>>, <<-1, 0, 1, 5>> }, w \in {2, 0, -1} }
  \cup { [op |-> "swap"], [op |-> "clear"], [op |-> "weights", w |-> <<2>>] }
  \cup { [op |-> "lists", l |-> l] : l \in Shapes }
Clips == { [op |-> "clip", f |-> f, lo |-> b[1], hi |-> b[2], i |-> i, j |-> j] : f \in {"all", "list", "one"}, b \in Bounds, i \in 1..3, j \in 1..3 }
Can(o, s) == IF o.op # "clip" THEN TRUE ELSE IF o.f = "all" THEN TRUE ELSE IF o.i > Len(s.l) THEN FALSE ELSE IF o.f = "list" THEN TRUE ELSE o.j <= Len(s.l[o.i])
Simple(o) == IF o.op # "clip" THEN TRUE ELSE IF o.f = "all" THEN o.i = 1 /\ o.j = 1 ELSE IF o.f = "list" THEN o.j = 1 ELSE TRUE
Asks == { [op |-> "mean"], [op |-> "wmean", e |-> 0] }
Init == st = Start /\ ops = <<>>
Next == /\ Len(ops) < DEPTH
        /\ \E o \in Moves \cup Clips :
             /\ Simple(o) /\ Can(o, st)
             /\ Len(Step(o, st).a) <= 3
             /\ st' = Step(o, st)
             /\ ops' = IF EMIT THEN Append(ops, o) ELSE Append(ops, 0)
             /\ IF EMIT THEN (Len(ops') < DEPTH \/ PrintT(<<"H", ToJson([ops |-> IF o.op = "clip" THEN ops' ELSE ops' \o <<[op |-> "mean"], [op |-> "wmean", e |-> 0]>>])>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN <<st, ops>> ELSE <<st, Len(ops)>>
(* turning all directions by a quarter turn or by <<4, 3, 5>> turns the mean; order does not matter *)
Quarter(a) == [i \in 1..Len(a) |-> <<0 - a[i][2], a[i][1], a[i][3]>>]
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
AllClips(s) == \A b \in Bounds, k \in 1..Len(s.l) : LET c == ClipList(b[1], b[2], s.l[k]) IN
  /\ \A i \in 1..Len(c) : c[i] \in b[1]..b[2] /\ (s.l[k][i] \in b[1]..b[2] => c[i] = s.l[k][i])
  /\ ClipList(b[1], b[2], c) = c
Laws ==
  /\ WellFormed(st.a, st.w) =>
       /\ SumX(Quarter(st.a), st.w) = 0 - SumY(st.a, st.w) /\ SumY(Quarter(st.a), st.w) = SumX(st.a, st.w)
       /\ SumX(Rev(st.a), Rev(st.w)) = SumX(st.a, st.w) /\ SumY(Rev(st.a), Rev(st.w)) = SumY(st.a, st.w)
       /\ (Len(st.a) = 1 => ~Null(st.a, st.w))
  /\ AllClips(st)
ASSUME \A n \in -1000..1000 : /\ Reduce(n) > 0 - Turn \div 2 /\ Reduce(n) <= Turn \div 2 /\ (n - Reduce(n)) % Turn = 0
                              /\ Reduce(Reduce(n)) = Reduce(n) /\ Gap(E7(Reduce(n)), E7(Reduce(n + Turn))) = 0
ASSUME \A p \in Circle : AMul(Cosine(p), Cosine(p)) + AMul(Sine(p), Sine(p)) = AMul(Grain, Grain)
=============================================================================
