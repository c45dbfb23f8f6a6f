-------------------------------- MODULE Boxes --------------------------------
(* Generated boxes and rounded boxes: closed, oriented, sphere-like surfaces. *)
(* A record: half extents x y z and radius r (in quarters), n, positions P    *)
(* and normals N (thousandths), faces F: sequences of <<position, normal>>    *)
(* (indexes from 0); base: what was in the mesh before.                       *)
EXTENDS Rat, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLE h

(* the faces generated, as cyclic sequences of positions with repeated ones merged *)
Own(r) == { f \in 1..Len(r.F) : f > r.base[4] }
Cyc(F, f, i) == F[f][(i % Len(F[f])) + 1]     \* i from 0
HalfEdges(r) ==
  UNION { { <<Cyc(r.F, f, i)[1], Cyc(r.F, f, i + 1)[1], f, i>> : i \in 0..(Len(r.F[f]) - 1) } : f \in Own(r) }
Proper(E) == { e \in E : e[1] # e[2] }
Pairs(E) == { <<e[1], e[2]>> : e \in E }
UsedP(r) == UNION { { r.F[f][i][1] : i \in 1..Len(r.F[f]) } : f \in Own(r) }
RECURSIVE Reach(_, _, _)
Reach(front, seen, E) ==
  LET next == { e[2] : e \in { x \in E : x[1] \in front } } \ seen IN
  IF next = {} THEN seen ELSE Reach(next, seen \cup next, E)
(* every edge runs once in each direction, V - E + F = 2, connected *)
ClosedSphere(r) ==
  LET E == Proper(HalfEdges(r)) D == Pairs(E) V == UsedP(r) v0 == CHOOSE x \in V : TRUE IN
  /\ Cardinality(D) = Cardinality(E)
  /\ \A d \in D : <<d[2], d[1]>> \in D
  /\ Cardinality(V) - Cardinality(D) \div 2 + Cardinality(Own(r)) = 2
  /\ Reach({v0}, {v0}, D) = V
(* all generated positions are used, all generated indexes are their own *)
OwnIndexes(r) ==
  /\ UsedP(r) = r.base[1]..(Len(r.P) - 1)
  /\ \A f \in Own(r), i \in 1..50 : i <= Len(r.F[f]) => r.F[f][i][2] \in r.base[2]..(Len(r.N) - 1)

Ext(r) == <<r.x, r.y, r.z>>
Rad(r) == IF r.round THEN r.r ELSE 0
UnitNormals(r) == \A i \in (r.base[2] + 1)..Len(r.N) : Abs(Dot(r.N[i], r.N[i]) - 1000000) <= 3000
(* each vertex is a corner of the inner box displaced by the radius along its normal *)
OnSurface(r) ==
  \A f \in Own(r) : \A i \in 1..Len(r.F[f]) :
    LET p == r.P[r.F[f][i][1] + 1] n == r.N[r.F[f][i][2] + 1] IN
    \A c \in 1..3 : LET q == 4 * p[c] - Rad(r) * n[c] IN Abs(Abs(q) - 1000 * Ext(r)[c]) <= 8 + 3 * Rad(r)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Extents(r) == \A c \in 1..3 :
  LET S == { r.P[i + 1][c] : i \in UsedP(r) } T == { -r.P[i + 1][c] : i \in UsedP(r) } IN
  /\ Abs(4 * MaxOf(S) - 1000 * (Ext(r)[c] + Rad(r))) <= 8 + 3 * Rad(r)
  /\ Abs(4 * MaxOf(T) - 1000 * (Ext(r)[c] + Rad(r))) <= 8 + 3 * Rad(r)
(* Newell normal of a face, from positions relative to its first corner (halved to stay small) *)
Rel(r, f, i) == LET a == r.P[Cyc(r.F, f, 0)[1] + 1] b == r.P[Cyc(r.F, f, i)[1] + 1] IN
  << (b[1] - a[1]) \div 2, (b[2] - a[2]) \div 2, (b[3] - a[3]) \div 2 >>
FaceNormal(r, f) ==
  LET N[i \in 0..Len(r.F[f])] == IF i = 0 THEN <<0,0,0>> ELSE VAdd(N[i-1], Cross(Rel(r, f, i - 1), Rel(r, f, i)))
  IN N[Len(r.F[f])]
(* outward: the normal of each corner and the direction from the centre agree with the winding *)
Outward(r) ==
  \A f \in Own(r) :
    LET g == FaceNormal(r, f) IN
    /\ \A i \in 1..Len(r.F[f]) :
         LET n == r.N[r.F[f][i][2] + 1] IN Dot(g, << n[1] \div 64, n[2] \div 64, n[3] \div 64 >>) > 0
    /\ r.round \/ \A i \in 1..Len(r.F[f]) :       \* a box is flat-shaded
         LET n == r.N[r.F[f][i][2] + 1] IN Cross([c \in 1..3 |-> g[c] \div 64], [c \in 1..3 |-> n[c] \div 10]) = <<0,0,0>>
(* the resolution asked for: an arc of a quarter turn has at least n corners between its ends, so
   the surface turns by at most a quarter turn over n + 1 along an edge of a face *)
Cosines == << 0, 707, 866, 923, 951, 965, 974, 980, 984, 987, 989, 991, 992 >>     \* cos(90/k deg), k = 1..13
(* and not at all along the edges that join the roundings of two corners of the inner box *)
InnerCorner(r, v) == [c \in 1..3 |-> IF Ext(r)[c] = 0 THEN 0
  ELSE IF 4 * r.P[v[1] + 1][c] - Rad(r) * r.N[v[2] + 1][c] > 0 THEN 1 ELSE -1]
Fine(r) == r.round =>
  \A f \in Own(r) : \A i \in 0..(Len(r.F[f]) - 1) :
    LET a == Cyc(r.F, f, i) b == Cyc(r.F, f, i + 1) m == r.N[a[2] + 1] n == r.N[b[2] + 1] IN
    /\ Dot(m, n) >= 1000 * Cosines[r.n + 1] - 4000
    /\ \/ InnerCorner(r, a) = InnerCorner(r, b)
       \/ \A c \in 1..3 : Abs(m[c] - n[c]) <= 3
(* what was there before is still there *)
Frame(r) == \A f \in 1..r.base[4] : r.F[f] = << <<0,0>>, <<1,0>>, <<2,0>> >>

Checks(r) == << <<"closed", ClosedSphere(r)>>, <<"indexes", OwnIndexes(r)>>, <<"unit", UnitNormals(r)>>,
                <<"surface", OnSurface(r)>>, <<"extents", Extents(r)>>, <<"outward", Outward(r)>>, <<"frame", Frame(r)>>,
                <<"resolution", Fine(r)>> >>
Init == h = 0
Next == /\ h < Len(Recs)
        /\ h' = h + 1
        /\ LET c == Checks(Recs[h + 1]) IN
           \A i \in 1..Len(c) : IF c[i][2] THEN TRUE ELSE PrintT(<<"BAD", h + 1, 0, c[i][1]>>)
Spec == Init /\ [][Next]_h
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
