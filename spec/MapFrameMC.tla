----------------------------- MODULE MapFrameMC -----------------------------
(* All maps and changes of a map within small bounds; pixels and positions       *)
(* convert back and forth in every one of them.                                 *)
EXTENDS MapFrame, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES m, ops
vars == <<m, ops>>
Sizes == {0, 1, 2, 5, 100}
Ress == {2, 4, 16, 6}
Points == { <<x, y>> : x \in {-9, 0, 4}, y \in {-4, 0, 7} }
Pixels == { <<x, y>> : x \in {-3, 0, 1, 40}, y \in {-1, 0, 2, 30} }
Changes == { [op |-> "center", c |-> c] : c \in Points } \cup { [op |-> "origin", c |-> c] : c \in Points }
  \cup { [op |-> "res", res |-> r] : r \in Ress } \cup { [op |-> "size", size |-> s] : s \in Sizes }
Asks == { [op |-> "metric", f |-> f, p |-> p] : f \in {"pose", "position"}, p \in Pixels }
  \cup { [op |-> "pixel", f |-> f, d |-> d] : f \in {"pose", "position", "static", "delta"}, d \in Points }
Makes == { [op |-> "new", size |-> s, res |-> r, c |-> c, t |-> 4] : s \in Sizes, r \in Ress, c \in Points }
Init == \E o \in Makes : ops = <<o>> /\ m = Step(o, [size |-> 0])
Next == /\ Len(ops) < DEPTH
        /\ \E o \in (IF EMIT /\ Len(ops) = DEPTH - 1 THEN Asks ELSE Changes) :
              /\ m' = Step(o, m)
              /\ ops' = IF EMIT THEN Append(ops, o) ELSE Append(ops, 0)
        /\ IF EMIT THEN (Len(ops') < DEPTH \/ PrintT(<<"H", ToJson([unit |-> 16, exact |-> 1, ops |-> ops'])>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF EMIT THEN <<m, ops>> ELSE <<m, Len(ops)>>
Laws ==
  /\ ToMetric(m, <<0, 0>>) = m.off
  /\ \A p \in Pixels : LET d == ToMetric(m, p) IN
       /\ ToPixel(m, d) = p
       /\ LET e == ToMetric(m, <<p[1] + 1, p[2]>>) IN e = <<d[1] + m.res, d[2]>>
       /\ LET e == ToMetric(m, <<p[1], p[2] + 1>>) IN e = <<d[1], d[2] - m.res>>
       /\ \A q \in Pixels : LET e == ToMetric(m, q) IN DeltaPixel(m, <<e[1] - d[1], e[2] - d[2]>>) = <<q[1] - p[1], q[2] - p[2]>>
  /\ \A d \in Points : LET p == ToPixel(m, d) i == Images(m, d) e == ToMetric(m, p) IN
       /\ Away(p[1], i[1], m.res) /\ Away(p[2], i[2], m.res)
       /\ 2 * MAbs(e[1] - d[1]) <= m.res /\ 2 * MAbs(e[2] - d[2]) <= m.res
  /\ \A c \in Points : LET n == Step([op |-> "center", c |-> c], m) a == ToMetric(n, <<0, 0>>) b == ToMetric(n, <<n.size, n.size>>) IN
       <<a[1] + b[1], a[2] + b[2]>> = <<2 * c[1], 2 * c[2]>>
=============================================================================
