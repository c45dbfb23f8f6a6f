----------------------------- MODULE ListsTrace -----------------------------
(* Recorded programs on lists of numbers.                                    *)
EXTENDS Lists, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = [l |-> <<>>, c |-> 0]
Answer(op, o) ==
  CASE op.op = "take" -> LET l == SubSeq(st.l, op.p + 1, op.p + op.n) IN Takes(op.ty, l) => o.v = Read(op.ty, l)
    [] op.op = "print" -> o.v = Said(op.ty, op.v) /\ o.n = Names(op.ty)
    [] op.op = "mask" -> o.q = MaskOf(op.m)
    [] op.op = "ismask" -> o.q = IF IsMask(op.n) THEN 1 ELSE 0
    [] OTHER -> TRUE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               nx == Step(op, st)
               sh == o.l = nx.l /\ (op.op = "fill" => o.c = nx.c)
               an == Answer(op, o) IN
           /\ ok' = (sh /\ an)
           /\ IF sh THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ IF an THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " answer">>)
           /\ st' = nx
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
