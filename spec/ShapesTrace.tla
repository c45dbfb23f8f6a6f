----------------------------- MODULE ShapesTrace -----------------------------
EXTENDS Shapes, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, done
vars == <<h, done>>
Init == h \in 1..Len(Recs) /\ done = FALSE
Good(r) ==
  IF r.kind = "pill" THEN IsPill(r.a, r.b, r.e, r.o)
  ELSE \A i \in 1..Len(r.ops) :
         LET op == r.ops[i] o == r.obs[i] IN
         /\ o.got = op.shape.dims               \* the getters of the solid
         /\ o.res = Visit(op.visitor, op.shape)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ IF Good(Recs[h]) THEN TRUE ELSE PrintT(<<"BAD", h, 1, Recs[h].kind>>)
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
