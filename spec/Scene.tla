-------------------------------- MODULE Scene --------------------------------
(* Scene builders: each builder holds the sequence of what was added to it.   *)
(* A copy has its own sequence from then on. State: a function from builder   *)
(* numbers to sequences of items [g |-> geometry, tf |-> 12 numbers].         *)
EXTENDS Integers, Sequences
Solids == {"sphere", "pill", "rrect"}
Start(item) == [b \in {0} |-> <<>>]
Result(st, s) == [st |-> st, s |-> s]
Put(s, b, seq) == [x \in DOMAIN s \cup {b} |-> IF x = b THEN seq ELSE s[x]]
Apply(s, op, g) ==
  CASE op.op \in {"mesh", "mesh_tf"} ->
         IF op.mesh.tex THEN Result("throw", s)
         ELSE Result("ok", Put(s, op.b, Append(s[op.b], [g |-> g, tf |-> op.tf])))
    [] op.op = "shape" ->
         IF op.shape \in Solids THEN Result("ok", Put(s, op.b, Append(s[op.b], [g |-> g, tf |-> op.tf])))
         ELSE Result("throw", s)
    [] op.op \in {"copy", "assign"} -> Result("ok", Put(s, op.to, s[op.b]))
    [] op.op = "drop" -> Result("ok", [x \in DOMAIN s \ {op.b} |-> s[x]])
    [] op.op = "export" -> Result("ok", s)
=============================================================================
