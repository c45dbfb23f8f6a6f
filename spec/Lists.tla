------------------------------- MODULE Lists -------------------------------
(* Values as lists of numbers and as text: a list of numbers (units of 1/8)     *)
(* with a place to write at; values are written into it and read from it.      *)
EXTENDS Integers, Sequences, FiniteSets
Types == {"Y", "X", "S", "V", "W", "E", "P", "Q", "R", "T", "K", "L"}
Dim(ty) == CASE ty \in {"Y", "K"} -> 2 [] ty \in {"X", "V", "E", "P"} -> 3 [] ty = "Q" -> 4
             [] ty \in {"S", "W"} -> 6 [] ty = "R" -> 9 [] ty = "T" -> 12 [] ty = "L" -> 18
             [] ty = "GV" -> 3 [] ty = "GQ" -> 4 [] ty = "GT" -> 7
One == 8
Fillable == {"Y", "X", "S", "V", "W", "P", "T"}
Printed == Types \cup {"GV", "GQ", "GT"}        \* also those of qi::geometry
Listable == Types \ {"L"}
Readable == Types \ {"K", "L"}
Spaced == {"X", "E", "W", "T", "S", "Q"}
(* the numbers of a value, in order *)
Row4 == <<0, 0, 0, One>>
Layout(ty, v) == IF ty = "T" THEN v \o Row4 ELSE v
Ident(ty) == CASE ty = "Q" -> <<One, 0, 0, 0>>
               [] ty = "R" -> <<One, 0, 0, 0, One, 0, 0, 0, One>>
               [] ty = "T" -> <<One, 0, 0, 0, 0, One, 0, 0, 0, 0, One, 0>>
               [] OTHER -> [i \in 1..Dim(ty) |-> 0]
(* the value made from a list *)
Read(ty, l) ==
  CASE ty = "R" -> IF Len(l) = 9 THEN l
                   ELSE IF Len(l) \in {12, 16} THEN <<l[1], l[2], l[3], l[5], l[6], l[7], l[9], l[10], l[11]>>
                   ELSE Ident(ty)
    [] ty = "T" -> IF Len(l) \in {12, 16} THEN SubSeq(l, 1, 12) ELSE Ident(ty)
    [] OTHER -> IF Len(l) = Dim(ty) THEN l ELSE Ident(ty)
(* a transform is only taken as it is when its rotation is one *)
Column(l, j) == <<l[j], l[4 + j], l[8 + j]>>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Det3(a, b, c) == a[1]*(b[2]*c[3] - b[3]*c[2]) - b[1]*(a[2]*c[3] - a[3]*c[2]) + c[1]*(a[2]*b[3] - a[3]*b[2])
Rigid(l) == LET a == Column(l, 1) b == Column(l, 2) c == Column(l, 3) IN
  /\ \A x \in {a, b, c} : \A i \in 1..3 : x[i] \in -One..One
  /\ Dot3(a, a) = One*One /\ Dot3(b, b) = One*One /\ Dot3(c, c) = One*One
  /\ Dot3(a, b) = 0 /\ Dot3(a, c) = 0 /\ Dot3(b, c) = 0 /\ Det3(a, b, c) = One*One*One
Takes(ty, l) == ty # "T" \/ Len(l) \notin {12, 16} \/ Rigid(l)
(* the numbers in the text of a value, in order, and the names before them *)
Said(ty, v) == IF ty = "T" THEN v \o Row4 ELSE IF ty = "L" THEN SubSeq(v, 1, 12) \o Row4 \o SubSeq(v, 13, 18) ELSE v
Names(ty) == CASE ty = "Y" -> <<"x", "y">> [] ty = "X" -> <<"x", "y", "z">> [] ty = "S" -> <<"x", "y", "z", "wx", "wy", "wz">>
               [] ty = "V" -> <<"xd", "yd", "zd">> [] ty \in {"W", "L"} -> <<"xd", "yd", "zd", "wxd", "wyd", "wzd">>
               [] ty = "E" -> <<"wx", "wy", "wz">> [] ty = "P" -> <<"x", "y", "theta">> [] ty = "Q" -> <<"w", "x", "y", "z">>
               [] ty = "K" -> <<"q", "dq">> [] ty = "GV" -> <<"Vector3">> [] ty = "GQ" -> <<"Quaternion">>
               [] ty = "GT" -> <<"Transform", "Quaternion", "Vector3">> [] OTHER -> <<>>
(* axis masks *)
AxisBit(a) == CASE a = "X" -> 1 [] a = "Y" -> 2 [] a = "Z" -> 4 [] a = "WX" -> 8 [] a = "WY" -> 16 [] a = "WZ" -> 32
MaskAxes(m) == CASE m = "XY" -> {"X", "Y"} [] m = "WYWZ" -> {"WY", "WZ"} [] m = "ALL" -> {"X", "Y", "Z", "WX", "WY", "WZ"}
                 [] m = "VEL" -> {"X", "Y", "Z"} [] m = "ROT" -> {"WX", "WY", "WZ"} [] m = "NONE" -> {} [] m = "PLANEZ" -> {"Z", "WX", "WY"}
                 [] OTHER -> {m}
Masks == {"X", "Y", "XY", "Z", "WX", "WY", "WZ", "WYWZ", "ALL", "VEL", "ROT", "NONE", "PLANEZ"}
RECURSIVE BitSum(_)
BitSum(s) == IF s = {} THEN 0 ELSE LET a == CHOOSE x \in s : TRUE IN AxisBit(a) + BitSum(s \ {a})
MaskOf(m) == BitSum(MaskAxes(m))
IsMask(n) == n \in 1..63

Fits(st, ty) == st.c + Len(Layout(ty, Ident(ty))) <= Len(st.l)
Step(op, st) ==
  CASE op.op = "set" -> [l |-> op.l, c |-> 0]
    [] op.op = "fill" -> LET w == Layout(op.ty, op.v) IN
         [l |-> [i \in 1..Len(st.l) |-> IF i > st.c /\ i <= st.c + Len(w) THEN w[i - st.c] ELSE st.l[i]], c |-> st.c + Len(w)]
    [] op.op \in { "to", "eigen" } -> [l |-> Layout(op.ty, op.v), c |-> 0]
    [] op.op = "to12" -> [l |-> op.v, c |-> 0]
    [] OTHER -> st
=============================================================================
