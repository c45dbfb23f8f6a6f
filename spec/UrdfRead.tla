------------------------------- MODULE UrdfRead -------------------------------
(* What the accessors of joints, inertials, visuals and links return, given   *)
(* the fields present in the element (numbers over 8).                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLE h
Has(f, a) == a \in DOMAIN f
Val(v) == [st |-> "ok", v |-> v, s |-> ""]
Str(s) == [st |-> "ok", v |-> <<>>, s |-> s]
None == [st |-> "none", v |-> <<>>, s |-> ""]
Throw == [st |-> "throw", v |-> <<>>, s |-> ""]
MustV(f, a) == IF Has(f, a) THEN Val(<<f[a]>>) ELSE Throw
MustV3(f, a) == IF Has(f, a) THEN Val(f[a]) ELSE Throw
MustS(f, a) == IF Has(f, a) THEN Str(f[a]) ELSE Throw
OptV(f, a) == IF Has(f, a) THEN Val(<<f[a]>>) ELSE None
DefV(f, a, d) == IF Has(f, a) THEN Val(<<f[a]>>) ELSE Val(<<d>>)
DefV3(f, a, d) == IF Has(f, a) THEN Val(f[a]) ELSE Val(d)
Z3 == <<0, 0, 0>>
Origin(f) == [xyz |-> DefV3(f, "xyz", Z3), rpy |-> DefV3(f, "rpy", Z3)]
Types == {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"}

Joint(f) ==
  [name |-> MustS(f, "name"), pa |-> MustS(f, "pa"), ch |-> MustS(f, "ch"),
   ty |-> IF Has(f, "ty") /\ f.ty \in Types THEN Str(f.ty) ELSE Throw,
   axis |-> DefV3(f, "ax", <<8, 0, 0>>),
   limit |-> IF Has(f, "lower") \/ Has(f, "upper")
             THEN Val(<< (IF Has(f, "lower") THEN f.lower ELSE 0), (IF Has(f, "upper") THEN f.upper ELSE 0) >>) ELSE None,
   effort |-> OptV(f, "effort"), velocity |-> OptV(f, "velocity"),
   mimic |-> IF Has(f, "mimic") THEN Str(f.mimic) ELSE None,
   mult |-> IF Has(f, "mimic") THEN DefV(f, "mult", 8) ELSE None,
   off |-> IF Has(f, "mimic") THEN DefV(f, "off", 0) ELSE None] @@ Origin(f)
Inertial(f) ==
  [mass |-> MustV(f, "mass"), ixx |-> MustV(f, "ixx"), ixy |-> MustV(f, "ixy"), ixz |-> MustV(f, "ixz"),
   iyy |-> MustV(f, "iyy"), iyz |-> MustV(f, "iyz"), izz |-> MustV(f, "izz")] @@ Origin(f)
Visual(f) ==
  [shape |-> IF f.shape \in {"none", "nogeometry"} THEN Throw ELSE Str(f.shape),
   size |-> IF f.shape = "box" THEN MustV3(f, "size") ELSE None,
   radius |-> IF f.shape \in {"cylinder", "sphere"} THEN MustV(f, "radius") ELSE None,
   length |-> IF f.shape = "cylinder" THEN MustV(f, "length") ELSE None,
   filename |-> IF f.shape = "mesh" THEN MustS(f, "filename") ELSE None,
   scale |-> IF f.shape = "mesh" THEN DefV3(f, "scale", <<8, 8, 8>>) ELSE None] @@ Origin(f)
LinkAcc(f) ==
  [name |-> MustS(f, "name"), mass |-> IF Has(f, "mass") THEN Val(<<f.mass>>) ELSE None,
   visuals |-> Val(<<f.visuals>>)]
Expected(r) == CASE r.what = "joint" -> Joint(r.f) [] r.what = "inertial" -> Inertial(r.f)
                 [] r.what = "visual" -> Visual(r.f) [] r.what = "link" -> LinkAcc(r.f)
Ok(r) == LET e == Expected(r) IN \A a \in DOMAIN e : a \in DOMAIN r.acc /\ r.acc[a] = e[a]
Init == h = 0
Next == /\ h < Len(Recs)
        /\ h' = h + 1
        /\ IF Ok(Recs[h + 1]) THEN TRUE ELSE PrintT(<<"BAD", h + 1, 0, Recs[h + 1].what>>)
Spec == Init /\ [][Next]_h
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
