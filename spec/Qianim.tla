------------------------------- MODULE Qianim -------------------------------
(* Animation documents (qianim 2.0): an element is                            *)
(*   [k |-> tag, at |-> attributes, d |-> text, ch |-> children]              *)
(* attributes: a set of <<name, text, number>> (numbers over 4; the text of a *)
(* numeric attribute is left empty). Elements are addressed by paths of child *)
(* positions. Operations are predicates over the state before and after       *)
(* because the position of a new key among foreign elements is free.          *)
EXTENDS Integers, Sequences, FiniteSets

El(k, at, d, ch) == [k |-> k, at |-> at, d |-> d, ch |-> ch]
NumA(n, v) == <<n, "", v>>
StrA(n, s) == <<n, s, 0>>
HasA(e, n) == \E a \in e.at : a[1] = n
GetA(e, n) == CHOOSE a \in e.at : a[1] = n
NumOf(e, n) == GetA(e, n)[3]
StrOf(e, n) == GetA(e, n)[2]
SetA(e, a) == [e EXCEPT !.at = { x \in @ : x[1] # a[1] } \cup {a}]

RECURSIVE At(_, _)
At(e, path) == IF path = <<>> THEN e ELSE At(e.ch[path[1]], Tail(path))
RECURSIVE Repl(_, _, _)
Repl(e, path, x) == IF path = <<>> THEN x ELSE [e EXCEPT !.ch[path[1]] = Repl(@, Tail(path), x)]
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))     \* x becomes s[i]
Without(s, P(_)) == SelectSeq(s, LAMBDA x : ~P(x))

(* frames are whole numbers: number attribute 4*frame *)
Frame(e) == NumOf(e, "frame")
IsKey(e) == e.k = "Key"
IsLabel(e) == e.k = "Label"
Having(e, P(_)) == { i \in 1..Len(e.ch) : P(e.ch[i]) }
KeysAt(e, f) == { i \in 1..Len(e.ch) : IsKey(e.ch[i]) /\ Frame(e.ch[i]) = 4 * f }
SortedKeys(e) == \A i, j \in Having(e, IsKey) : i < j => Frame(e.ch[i]) < Frame(e.ch[j])
SortedLabels(e) == \A i, j \in Having(e, IsLabel) : i < j => Frame(e.ch[i]) <= Frame(e.ch[j])
TangentsOf(e, side) == { i \in 1..Len(e.ch) : e.ch[i].k = "Tangent" /\ StrOf(e.ch[i], "side") = side }
CurvesOf(e, n) == { i \in 1..Len(e.ch) : e.ch[i].k = "ActuatorCurve" /\ StrOf(e.ch[i], "actuator") = n }
Child(e, k) == { i \in 1..Len(e.ch) : e.ch[i].k = k }
First(S) == CHOOSE i \in S : \A j \in S : i <= j

(* the element e becomes x having received the new child c at position i *)
Grows(e, x, i, c) == i \in 1..(Len(e.ch) + 1) /\ x = [e EXCEPT !.ch = Insert(@, i, c)]

(* a label goes after the labels of its frame: stability *)
LabelPlace(e, i, f) == \A j \in Having(e, IsLabel) : (j < i) <=> (Frame(e.ch[j]) <= 4 * f)
KeyPlace(e, i, f) == \A j \in Having(e, IsKey) : (j < i) <=> (Frame(e.ch[j]) < 4 * f)

(* Outcome: [st |-> "ok"/"throw"/"none", idx |-> position of the element returned (0: none),  *)
(* n |-> number]. Step(e, op, x, r): operation op on element e leaves x and yields r.          *)
Same(e, x, r, st, idx) == x = e /\ r.st = st /\ r.idx = idx
Put(e, x, r, a) == x = SetA(e, a) /\ r.st = "ok"
Step(e, op, x, r) ==
  CASE op.op = "req_key" ->
         IF KeysAt(e, op.f) # {} THEN Same(e, x, r, "ok", First(KeysAt(e, op.f)))
         ELSE IF op.f < 0 THEN Same(e, x, r, "throw", 0)
         ELSE /\ r.st = "ok"
              /\ Grows(e, x, r.idx, El("Key", {NumA("frame", 4 * op.f)}, "", <<>>))
              /\ KeyPlace(e, r.idx, op.f)
    [] op.op = "get_key" ->
         IF KeysAt(e, op.f) # {} THEN Same(e, x, r, "ok", First(KeysAt(e, op.f))) ELSE Same(e, x, r, "none", 0)
    [] op.op = "add_label" ->
         IF op.f < 0 THEN Same(e, x, r, "throw", 0)
         ELSE /\ r.st = "ok"
              /\ Grows(e, x, r.idx, El("Label", {NumA("frame", 4 * op.f)}, op.v, <<>>))
              /\ LabelPlace(e, r.idx, op.f)
    [] op.op = "req_tan" ->
         IF TangentsOf(e, op.side) # {} THEN Same(e, x, r, "ok", First(TangentsOf(e, op.side)))
         ELSE r.st = "ok" /\ Grows(e, x, r.idx, El("Tangent", {StrA("side", op.side)}, "", <<>>))
    [] op.op = "get_tan" ->
         IF TangentsOf(e, op.side) # {} THEN Same(e, x, r, "ok", First(TangentsOf(e, op.side))) ELSE Same(e, x, r, "none", 0)
    [] op.op = "put_tan" ->
         LET vals == { NumA("abscissaParam", op.a), NumA("ordinateParam", op.o) } IN
         IF TangentsOf(e, op.side) # {}
         THEN LET i == First(TangentsOf(e, op.side)) IN
              /\ r.st = "ok" /\ r.idx = i
              /\ x = [e EXCEPT !.ch[i] = SetA(SetA(@, NumA("abscissaParam", op.a)), NumA("ordinateParam", op.o))]
         ELSE r.st = "ok" /\ Grows(e, x, r.idx, El("Tangent", {StrA("side", op.side)} \cup vals, "", <<>>))
    [] op.op = "erase_tan" ->
         /\ r.st = "ok" /\ r.n = Cardinality(TangentsOf(e, op.side))
         /\ x = [e EXCEPT !.ch = Without(@, LAMBDA c : c.k = "Tangent" /\ StrOf(c, "side") = op.side)]
    [] op.op = "req_curve" ->
         IF CurvesOf(e, op.n) # {} THEN Same(e, x, r, "ok", First(CurvesOf(e, op.n)))
         ELSE r.st = "ok" /\ Grows(e, x, r.idx, El("ActuatorCurve", {StrA("actuator", op.n)}, "", <<>>))
    [] op.op = "add_labels" -> r.st = "ok" /\ Grows(e, x, r.idx, El("Labels", {}, "", <<>>))
    [] op.op \in {"req_anim", "get_anim"} ->
         IF Child(e, "Animation") # {}
         THEN LET i == First(Child(e, "Animation")) a == e.ch[i] IN
              IF HasA(a, "typeVersion") /\ StrOf(a, "typeVersion") = "2.0" THEN Same(e, x, r, "ok", i)
              ELSE Same(e, x, r, "throw", 0)
         ELSE IF op.op = "get_anim" THEN Same(e, x, r, "throw", 0)
         ELSE r.st = "ok" /\ Grows(e, x, r.idx, El("Animation", {StrA("typeVersion", "2.0")}, "", <<>>))
    [] op.op = "put_frame" -> IF op.i < 0 THEN Same(e, x, r, "throw", 0) ELSE Put(e, x, r, NumA("frame", 4 * op.i))
    [] op.op = "put_fps" -> IF op.i <= 0 THEN Same(e, x, r, "throw", 0) ELSE Put(e, x, r, NumA("fps", 4 * op.i))
    [] op.op = "put_mute" -> Put(e, x, r, StrA("mute", IF op.b THEN "true" ELSE "false"))
    [] op.op = "put_unit" -> Put(e, x, r, StrA("unit", op.u))
    [] op.op = "put_actuator" -> Put(e, x, r, StrA("actuator", op.n))
    [] op.op = "put_value" -> Put(e, x, r, NumA("value", op.q))
    [] op.op = "other" ->     \* done by the user: any element appended
         x = [e EXCEPT !.ch = Append(@, El(op.k, {}, "", <<>>))]
    \* the children of a kind, in document order (and what labels say)
    [] op.op = "list" -> LET S == Child(e, op.of) seq == [i \in 1..Cardinality(S) |-> CHOOSE p \in S : Cardinality({ q \in S : q <= p }) = i] IN
         /\ x = e /\ r.seq = seq
         /\ op.of = "Label" => r.said = [i \in 1..Len(seq) |-> e.ch[seq[i]].d]

---------------------------------------------------------------------------
(* validation *)
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE <<First(S)>> \o Ordered(S \ {First(S)})
Keys(e) == LET o == Ordered(Having(e, IsKey)) IN [i \in 1..Len(o) |-> e.ch[o[i]]]
GoodInt(e, n) == HasA(e, n) /\ StrOf(e, n) = "" /\ NumOf(e, n) % 4 = 0
GoodNum(e, n) == HasA(e, n) /\ StrOf(e, n) = ""
GoodFrame(e) == GoodInt(e, "frame") /\ NumOf(e, "frame") >= 0
(* sides are examined until the wanted one is found *)
Tangents(e) == LET o == Ordered(Child(e, "Tangent")) IN [i \in 1..Len(o) |-> e.ch[o[i]]]
Sides == {"left", "right"}
GoodSide(t) == HasA(t, "side") /\ StrOf(t, "side") \in Sides
HasTan(e, side) ==
  LET t == Tangents(e) IN
  \E i \in 1..Len(t) : GoodSide(t[i]) /\ StrOf(t[i], "side") = side /\ \A j \in 1..i : GoodSide(t[j])
Tan(e, side) ==
  LET t == Tangents(e) IN
  t[CHOOSE i \in 1..Len(t) : GoodSide(t[i]) /\ StrOf(t[i], "side") = side
                             /\ \A j \in 1..(i-1) : StrOf(t[j], "side") # side]
GoodTan(e, side) == HasTan(e, side) /\ GoodNum(Tan(e, side), "abscissaParam") /\ GoodNum(Tan(e, side), "ordinateParam")
PairOk(a, b) ==
  /\ GoodFrame(a) /\ GoodFrame(b) /\ GoodNum(a, "value") /\ GoodNum(b, "value")
  /\ GoodTan(a, "right") /\ GoodTan(b, "left")
  /\ LET d == Frame(b) - Frame(a)
         p == NumOf(Tan(a, "right"), "abscissaParam")
         q == NumOf(Tan(b, "left"), "abscissaParam") IN
     d > 0 /\ 0 <= p /\ p <= d /\ -d <= q /\ q <= 0
(* the four points of the arc between two keys: the inner ones relative to the outer *)
Arc(a, b) == LET p == Tan(a, "right") q == Tan(b, "left") IN
  << Frame(a), NumOf(a, "value"), NumOf(p, "abscissaParam"), NumOf(p, "ordinateParam"),
     NumOf(q, "abscissaParam"), NumOf(q, "ordinateParam"), Frame(b), NumOf(b, "value") >>
Arcs(c) == LET ks == Keys(c) IN [i \in 1..(IF ks = <<>> THEN 0 ELSE Len(ks) - 1) |-> Arc(ks[i], ks[i + 1])]
CurveOk(c) == LET ks == Keys(c) IN \A i \in 1..(Len(ks) - 1) : PairOk(ks[i], ks[i + 1])
Units == {"dimensionless", "radian", "degree", "meter"}
GoodCurve(c) ==
  /\ HasA(c, "actuator")
  /\ GoodInt(c, "fps") /\ NumOf(c, "fps") > 0
  /\ HasA(c, "unit") /\ StrOf(c, "unit") \in Units
  /\ CurveOk(c)
GoodVersion(a) == HasA(a, "typeVersion") /\ StrOf(a, "typeVersion") = "2.0"
AnimationOk(a) == GoodVersion(a) /\ \A i \in Child(a, "ActuatorCurve") : GoodCurve(a.ch[i])
=============================================================================
