------------------------------- MODULE SceneMC -------------------------------
(* All histories of adding to, copying, assigning and dropping builders.      *)
EXTENDS Scene, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES s, hist
vars == <<s, hist>>
I12 == <<4,0,0,0, 0,4,0,0, 0,0,4,0>>
Adds(b) == { [op |-> "mesh", b |-> b, mesh |-> [tex |-> t, k |-> Len(s[b])], tf |-> I12] : t \in BOOLEAN }
         \cup { [op |-> "shape", b |-> b, shape |-> "plane", tf |-> I12, d |-> <<0,0,4>>] }
OpSet == UNION { Adds(b) \cup { [op |-> o, b |-> b, to |-> t] : o \in {"copy", "assign"}, t \in 0..2 } : b \in DOMAIN s }
         \cup (IF DOMAIN s = {0} THEN {} ELSE { [op |-> "drop", b |-> b] : b \in DOMAIN s })
Init == s = Start(0) /\ hist = <<>>
Next == Len(hist) < DEPTH /\ \E op \in OpSet : s' = Apply(s, op, "g").s /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
(* adding to one builder never shows in another *)
Independent == [][LET op == hist'[Len(hist')] IN
   \A b \in DOMAIN s \cap DOMAIN s' :
     b # (IF op.op \in {"copy", "assign"} THEN op.to ELSE op.b) => s'[b] = s[b]]_vars
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([ops |-> hist])>>)
=============================================================================
