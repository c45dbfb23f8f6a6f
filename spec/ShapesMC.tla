------------------------------ MODULE ShapesMC ------------------------------
(* Every kind of solid meets every visitor; pills between all small points.   *)
EXTENDS Shapes, TLC, Json
CONSTANTS EMIT, R
VARIABLES job
vars == <<job>>
Visitors == { [own |-> o, msg |-> m] : o \in Kinds \cup {"all", "none"}, m \in {"", "no way"} }
DimWords == <<"16256", "16384", "16448">>   \* 1, 2, 3 (upper halves)
ShapesOf(w) == { [kind |-> k, dims |-> [i \in 1..Dims(k) |-> <<"0", DimWords[i]>>]] : k \in Kinds }
Pt(w) == (-R..R) \X (-R..R) \X (-R..R)
Init == \/ \E s \in ShapesOf(0), v \in Visitors : job = [kind |-> "visit", ops |-> <<[shape |-> s, visitor |-> v]>>]
        \/ \E a \in { <<0,0,0>>, <<1,-2,1>> }, d \in Pt(0) \ { <<0,0,0>> } : job = [kind |-> "pill", a |-> a, b |-> VAdd(a, d), e |-> 1]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* a visitor hears of a solid once, or refuses it with its message *)
Once == job.kind = "visit" => \A i \in 1..Len(job.ops) :
  LET r == Visit(job.ops[i].visitor, job.ops[i].shape) IN
  /\ Len(r.calls) = (IF r.r = "ok" THEN 1 ELSE 0)
  /\ (r.r = "throw") = (r.msg # "")
(* the placement of axis-aligned pills is accepted, its mirror image and the reverse direction are not *)
Placed == job.kind = "pill" =>
  LET d == VSub(job.b, job.a)
      o(g) == [g |-> VScale(1000, g), G |-> 1000, C |-> 1000, hl |-> 500 * ISqrt(Dot(d, d)),
            c |-> VScale(500, VAdd(job.a, job.b)), pa |-> VScale(1000, job.b), pb |-> VScale(1000, job.a)] IN
  (d[1] = 0 /\ d[2] = 0) =>
    IF d[3] > 0 THEN /\ IsPill(job.a, job.b, 1, o(I9))
                     /\ ~IsPill(job.a, job.b, 1, o(<<1,0,0, 0,-1,0, 0,0,1>>))
                     /\ ~IsPill(job.a, job.b, 1, o(<<1,0,0, 0,-1,0, 0,0,-1>>))
    ELSE IsPill(job.a, job.b, 1, o(<<1,0,0, 0,-1,0, 0,0,-1>>))
Emitted == EMIT => PrintT(<<"H", ToJson(job)>>)
=============================================================================
