------------------------------ MODULE QianimMC ------------------------------
(* One curve (or one list of labels, or one key) under every history of       *)
(* requests mixed with foreign elements and attributes; new keys may land     *)
(* anywhere the specification allows.                                         *)
EXTENDS Qianim, TLC, Json
CONSTANTS WORLD, DEPTH, EMIT
VARIABLES e, hist
vars == <<e, hist>>
OpSet(w) ==
  CASE WORLD = "curve" ->
         { [op |-> "req_key", f |-> f] : f \in {-1, 0, 1, 2} } \cup { [op |-> "get_key", f |-> 1],
           [op |-> "put_fps", i |-> 5], [op |-> "put_fps", i |-> 0], [op |-> "other", k |-> "a"] }
    [] WORLD = "labels" ->
         { [op |-> "add_label", f |-> f, v |-> "x"] : f \in {-1, 0, 1, 2} } \cup
         { [op |-> "put_fps", i |-> 5], [op |-> "other", k |-> "a"] }
    [] WORLD = "key" ->
         { [op |-> o, side |-> s] : o \in {"req_tan", "get_tan", "erase_tan"}, s \in Sides } \cup
         { [op |-> "put_tan", side |-> s, a |-> 2, o |-> 3] : s \in Sides } \cup
         { [op |-> "put_value", q |-> 3], [op |-> "other", k |-> "a"] }
    [] WORLD = "anim" ->
         { [op |-> "req_curve", n |-> n] : n \in {"x", "y"} } \cup { [op |-> "add_labels"], [op |-> "other", k |-> "a"] }
Places == 1..(Len(e.ch) + 1)
NewEl(op) ==
  CASE op.op = "req_key" -> El("Key", {NumA("frame", 4 * op.f)}, "", <<>>)
    [] op.op = "add_label" -> El("Label", {NumA("frame", 4 * op.f)}, op.v, <<>>)
    [] op.op = "req_tan" -> El("Tangent", {StrA("side", op.side)}, "", <<>>)
    [] op.op = "put_tan" -> El("Tangent", {StrA("side", op.side), NumA("abscissaParam", op.a), NumA("ordinateParam", op.o)}, "", <<>>)
    [] op.op = "req_curve" -> El("ActuatorCurve", {StrA("actuator", op.n)}, "", <<>>)
    [] op.op = "add_labels" -> El("Labels", {}, "", <<>>)
    [] OTHER -> El("a", {}, "", <<>>)
(* all the elements an operation might leave: unchanged, one child more, an attribute set, tangents gone *)
Candidates(op) ==
  {e} \cup { [e EXCEPT !.ch = Insert(@, i, NewEl(op))] : i \in Places }
      \cup { SetA(e, a) : a \in {NumA("fps", 20), NumA("value", 3)} }
      \cup { [e EXCEPT !.ch = Without(@, LAMBDA c : c.k = "Tangent" /\ StrOf(c, "side") = s)] : s \in Sides }
      \cup { [e EXCEPT !.ch[i] = SetA(SetA(@, NumA("abscissaParam", 2)), NumA("ordinateParam", 3))] : i \in 1..Len(e.ch) }
Results == { [st |-> s, idx |-> i, n |-> n] : s \in {"ok", "throw", "none"}, i \in 0..(Len(e.ch) + 1), n \in 0..DEPTH }
Init == e = El("x", {}, "", <<>>) /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E op \in OpSet(0) :
             /\ hist' = Append(hist, op)
             /\ \E x \in Candidates(op) : (\E r \in Results : Step(e, op, x, r)) /\ e' = x
Spec == Init /\ [][Next]_vars
Sorted == SortedKeys(e) /\ SortedLabels(e)
(* every key that was requested is found, exactly once *)
AllFound == WORLD = "curve" =>
  \A f \in 0..2 : Cardinality(KeysAt(e, f)) = IF \E i \in 1..Len(hist) : hist[i].op = "req_key" /\ hist[i].f = f THEN 1 ELSE 0
(* foreign elements survive *)
Foreign == Cardinality(Child(e, "a")) = Cardinality({ i \in 1..Len(hist) : hist[i].op = "other" })
OneEach == /\ WORLD = "key" => \A s \in Sides : Cardinality(TangentsOf(e, s)) <= 1
           /\ WORLD = "anim" => \A n \in {"x", "y"} : Cardinality(CurvesOf(e, n)) <= 1
View == IF EMIT THEN <<hist>> ELSE <<e, hist>>
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([ops |-> hist])>>)
=============================================================================
