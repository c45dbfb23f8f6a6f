----------------------------- MODULE VecSpaceMC -----------------------------
(* All programs of up to DEPTH operations on small values of every type, and    *)
(* the laws of a vector space on every state they reach.                       *)
EXTENDS VecSpace, TLC, Json
CONSTANTS DEPTH, EMIT, TYPES
VARIABLES ty, x, ops
vars == <<ty, x, ops>>
Vals(d) == { [i \in 1..d |-> IF i = j THEN 64 ELSE 0] : j \in 1..d } \cup { [i \in 1..d |-> ((i * 5) % 7) - 3], [i \in 1..d |-> 32 * (i % 3) - 16 * i] }
Regs == 1..2
Factors == { <<-2, 1>>, <<1, 2>>, <<0, 1>>, <<3, 1>>, <<-1, 2>> }
Powers == { <<-2, 1>>, <<1, 2>>, <<-1, 1>>, <<-1, 4>>, <<4, 1>> }
Ops ==
  { [op |-> "load", r |-> r, v |-> v] : r \in Regs, v \in Vals(Dim(ty)) }
  \cup (IF Linear(ty) THEN { [op |-> "all", r |-> r, c |-> 48] : r \in Regs } ELSE {})
  \cup (IF ty \in {"R", "T", "Q", "D", "L"} THEN {} ELSE { [op |-> "none", r |-> r] : r \in Regs })
  \cup (IF Linear(ty) THEN { [op |-> o, f |-> "plain", r |-> r, a |-> a, b |-> b] : o \in {"add", "sub"}, r \in Regs, a \in Regs, b \in Regs }
        ELSE {})
  \cup (IF Linear(ty) /\ ty # "W" THEN { [op |-> o, f |-> "self", r |-> r, a |-> r, b |-> b] : o \in {"add", "sub"}, r \in Regs, b \in Regs } ELSE {})
  \cup (IF Linear(ty) /\ ty # "E" THEN { [op |-> o, r |-> r, a |-> a] : o \in {"neg", "pos"}, r \in Regs, a \in Regs } ELSE {})
  \cup (IF Scalable(ty) THEN { [op |-> "mul", f |-> f, r |-> r, a |-> (IF f = "self" THEN r ELSE a), n |-> q[1], d |-> q[2]] : f \in {"right", "self"} \cup (IF LeftScalable(ty) THEN {"left"} ELSE {}), r \in Regs, a \in Regs, q \in Factors }
                             \cup { [op |-> "mul", f |-> f, r |-> r, a |-> (IF f = "div_self" THEN r ELSE a), n |-> q[1], d |-> q[2]] : f \in {"div", "div_self"}, r \in Regs, a \in Regs, q \in Powers }
                             \cup { [op |-> "zero", f |-> f, r |-> r, s |-> s] : f \in {"div", "div_self"}, r \in Regs, s \in {1, -1} }
        ELSE {})
  \cup { [op |-> "near", r |-> 1, a |-> a, b |-> b, e |-> e] : a \in Regs, b \in Regs, e \in {0, 16, 64} }
  \cup { [op |-> "near", r |-> 1, a |-> 1, b |-> 2, e |-> -1] }
  \cup (IF Comparable(ty) THEN { [op |-> "eq", r |-> 1, a |-> a, b |-> b] : a \in Regs, b \in Regs } ELSE {})
  \cup (IF Normed(ty) THEN { [op |-> "norm", f |-> f, r |-> 1, a |-> a] : f \in {"member", "free"}, a \in Regs } ELSE {})
  \cup (IF Normal(ty) THEN { [op |-> "unit", f |-> f, r |-> 1, a |-> a] : f \in {"member", "free"}, a \in Regs } ELSE {})
  \cup (IF Metric(ty) THEN { [op |-> "dist", f |-> f, r |-> 1, a |-> a, b |-> b] : f \in {"member", "free"}, a \in Regs, b \in Regs } ELSE {})
  \cup (IF ty \in {"Y", "X"} THEN { [op |-> o, f |-> f, r |-> r, a |-> a, b |-> b] : o \in {"dot", "cross"}, f \in {"member", "free", "out"}, r \in Regs, a \in Regs, b \in Regs } ELSE {})
  \cup (IF ty \in {"Y", "P"} THEN { [op |-> "angle", r |-> 1, a |-> a] : a \in Regs } ELSE {})
  \cup (IF ty = "X" THEN { [op |-> "ortho", f |-> f, r |-> 1, a |-> a, b |-> b, e |-> e] : f \in {"member", "free"}, a \in Regs, b \in Regs, e \in {-1, 512} }
                         \cup { [op |-> "isunit", f |-> f, r |-> 1, a |-> a, e |-> e] : f \in {"member", "free"}, a \in Regs, e \in {-1, 8} } ELSE {})
  \cup (IF ty \in {"X", "S"} THEN { [op |-> "veloc", r |-> 1, a |-> a, n |-> -3, d |-> 2] : a \in Regs } ELSE {})
  \cup (IF ty = "W" THEN { [op |-> "back", r |-> 1, a |-> a] : a \in Regs } ELSE {})
Some(d) == { [i \in 1..d |-> ((i * 5) % 7) - 3], [i \in 1..d |-> IF i = d THEN -64 ELSE 0], [i \in 1..d |-> 32 * (i % 3) - 16 * i] }
Init == /\ ty \in TYPES
        /\ IF EMIT THEN \E v \in Vals(Dim(ty)), w \in Some(Dim(ty)) :
                          /\ x = <<v, w, Zero(ty)>>
                          /\ ops = <<[op |-> "load", r |-> 1, v |-> v], [op |-> "load", r |-> 2, v |-> w]>>
           ELSE x = [r \in 1..3 |-> Zero(ty)] /\ ops = <<>>
Fits(op) == IF op.op \in {"mul", "veloc"} THEN Divides(x[op.a], op.n, op.d) ELSE TRUE
Small(v) == \A i \in 1..Len(v) : VAbs(v[i]) <= 512
Next == /\ Len(ops) < DEPTH
        /\ \E op \in Ops : /\ Fits(op)
                           /\ (op.op \notin {"load", "all", "none", "add", "sub", "neg", "pos", "mul"}) => EMIT
                           /\ LET y == Step(ty, op, x) IN
                              /\ Small(y)
                              /\ x' = [x EXCEPT ![op.r] = y]
                              /\ ops' = IF EMIT THEN Append(ops, op) ELSE Append(ops, 0)
        /\ UNCHANGED ty
        /\ IF EMIT THEN (Len(ops') < DEPTH \/ PrintT(<<"H", ToJson([ty |-> ty, ops |-> ops'])>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN <<ty, x, ops>> ELSE <<ty, x, Len(ops), 0>>
(* laws *)
Laws == LET a == x[1] b == x[2] d == Dim(ty) IN
  /\ Add(a, b) = Add(b, a) /\ Sub(Add(a, b), b) = a /\ Add(a, Neg(a)) = Zero(ty)
  /\ Mul(Add(a, b), 3, 1) = Add(Mul(a, 3, 1), Mul(b, 3, 1)) /\ Mul(a, -1, 1) = Neg(a)
  /\ Near(ty, a, a, 0) /\ (ty \notin {"Q", "D"} => (Near(ty, a, b, 0) <=> a = b))
  /\ \A e \in {0, 3, 40} : Near(ty, a, b, e) <=> Near(ty, b, a, e)
  /\ DotOf(a, b) = DotOf(b, a) /\ DotOf(a, a) = Square(a, 1..d)
  /\ (DotOf(a, b) \div 256) * (DotOf(a, b) \div 256) <= (Square(a, 1..d) \div 256 + 1) * (Square(b, 1..d) \div 256 + 1) + 40000
  /\ (d = 3) => LET c == Cross3(a, b) IN /\ c = Neg(Cross3(b, a))
                                          /\ \A i \in 1..3 : VAbs(c[i]) < 1000000
                                          /\ a[1] * (c[1] \div 8) + a[2] * (c[2] \div 8) + a[3] * (c[3] \div 8) \in -3000..3000
  /\ LET n == Square(a, Long(ty)) r == Root(n) IN
       n < 100000 => (r.r * r.r <= n * r.s * r.s /\ (r.r + 1) * (r.r + 1) > n * r.s * r.s)
=============================================================================
