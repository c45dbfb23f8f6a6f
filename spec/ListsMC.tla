------------------------------ MODULE ListsMC ------------------------------
EXTENDS Lists, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES st, ops
vars == <<st, ops>>
Some(ty) == { IF ty \in {"T"} THEN <<0, -One, 0, 11, One, 0, 0, -12, 0, 0, One, 13>>
              ELSE [i \in 1..Dim(ty) |-> 3 * i - 10], IF ty = "T" THEN <<0, 0, One, -1, One, 0, 0, 2, 0, One, 0, 3>> ELSE [i \in 1..Dim(ty) |-> IF i = Dim(ty) THEN -1 ELSE 100 + i] }
Ops == { [op |-> "set", l |-> [i \in 1..n |-> i]] : n \in {0, 1, 5, 7, 25} }
       \cup UNION { { [op |-> "fill", ty |-> ty, v |-> v] : v \in Some(ty) } : ty \in { x \in Fillable : Fits(st, x) } }
       \cup UNION { { [op |-> "to", f |-> f, ty |-> ty, v |-> v] : f \in {"ret", "into"}, v \in Some(ty) } : ty \in Listable }
       \cup { [op |-> "to12", f |-> f, ty |-> "T", v |-> v] : f \in {"ret", "into"}, v \in Some("T") }
       \cup { [op |-> "take", ty |-> ty, p |-> p, n |-> n] : ty \in Readable, p \in {0, 1}, n \in { k \in {0, 2, 3, 4, 6, 9, 12, 16} : k + 1 <= Len(st.l) } }
       \cup { [op |-> "take", ty |-> ty, p |-> 0, n |-> Len(st.l)] : ty \in Readable }
       \cup UNION { { [op |-> "print", f |-> f, ty |-> ty, v |-> v] : v \in Some(ty), f \in {"stream"} \cup (IF ty \in Spaced THEN {"spaced"} ELSE {}) } : ty \in Printed }
Init == st = [l |-> <<>>, c |-> 0] /\ ops = <<>>
Next == /\ Len(ops) < DEPTH
        /\ \E op \in Ops : /\ (op.op \in {"take", "print"}) => EMIT
                           /\ st' = Step(op, st)
                           /\ ops' = Append(ops, IF EMIT THEN op ELSE 0)
        /\ IF EMIT THEN (Len(ops') < DEPTH \/ PrintT(<<"H", ToJson([ops |-> ops'])>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* what a value writes is what it is made from again; nothing outside is touched *)
Laws == /\ st.c \in 0..Len(st.l)
        /\ \A ty \in Readable : \A v \in Some(ty) : Takes(ty, Layout(ty, v)) => Read(ty, Layout(ty, v)) = v
        /\ \A ty \in Readable : Len(Read(ty, st.l)) = Dim(ty)
        /\ \A m \in Masks : IsMask(MaskOf(m)) \/ m = "NONE"
        /\ MaskOf("ALL") = MaskOf("VEL") + MaskOf("ROT")
Frame == [][\A i \in 1..Len(st.l) : (ops' # ops /\ Len(st'.l) = Len(st.l) /\ st'.c > st.c) => ((i <= st.c \/ i > st'.c) => st'.l[i] = st.l[i])]_vars
=============================================================================
