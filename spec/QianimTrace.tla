----------------------------- MODULE QianimTrace -----------------------------
(* Recorded histories of the qianim interface against module Qianim.          *)
EXTENDS Qianim, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, ok
vars == <<h, k, ok>>
RECURSIVE Read(_)
Read(j) == El(j.k, { <<j.at[i][1], j.at[i][2], j.at[i][3]>> : i \in 1..Len(j.at) }, j.d, [i \in 1..Len(j.ch) |-> Read(j.ch[i])])
(* attributes are unique within an element *)
RECURSIVE CleanAttrs(_)
CleanAttrs(j) == /\ \A a, b \in 1..Len(j.at) : a # b => j.at[a][1] # j.at[b][1]
                 /\ \A i \in 1..Len(j.ch) : CleanAttrs(j.ch[i])
(* by TLA+ update, everything outside the element addressed must be as before *)
Holds(pre, op, post, r) ==
  /\ CleanAttrs(post)
  /\ LET a == Read(pre) b == Read(post) IN
     \E x \in { At(b, op.path) } : b = Repl(a, op.path, x) /\ Step(At(a, op.path), op, x, r)
PathOk(j, path) == LET F[i \in 0..Len(path)] == IF i = 0 THEN j ELSE F[i-1].ch[path[i]] IN
  \A i \in 1..Len(path) : path[i] \in 1..Len(F[i-1].ch)
Doc(rec, i) == IF i = 0 THEN rec.doc ELSE rec.steps[i].doc
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE
Next == /\ ok /\ k < Len(Recs[h].steps)
        /\ LET s == Recs[h].steps[k + 1]
               good == PathOk(s.doc, s.op.path) /\ Holds(Doc(Recs[h], k), s.op, s.doc, s.r) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, s.op.op>>)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
