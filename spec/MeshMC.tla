------------------------------- MODULE MeshMC -------------------------------
(* All histories of the mesh protocol, one representative per abstract state; *)
(* every transition of the abstract graph is emitted with a history reaching  *)
(* it, to be replayed on the real class.                                      *)
EXTENDS Mesh, TLC, Json
CONSTANTS MAXV, EMIT
VARIABLES m, hist
vars == <<m, hist>>
OpSet == { [op |-> "position", v |-> <<1,2,3>>], [op |-> "normal", v |-> <<0,0,1>>], [op |-> "normal", v |-> <<1,0,0>>],
           [op |-> "texCoord", v |-> <<1,2>>], [op |-> "vertex", v |-> <<4,5,6>>], [op |-> "end"] }
         \cup { [op |-> o, i |-> i] : o \in {"normalAt", "texCoordAt", "vertexAt"}, i \in {0, 1} }
         \cup { [op |-> "begin", mode |-> w] : w \in {"POLYGON", "TRIANGLES", "QUADS"} }
Small(x) == /\ Len(x.pos) <= 2 /\ Len(x.nrm) <= 2 /\ Len(x.txc) <= 2 /\ Len(x.vc) <= 2
            /\ Len(x.verts) <= MAXV * Stride(x)
Init == m \in { New(t) : t \in BOOLEAN } /\ hist = <<>>
Next == \E op \in OpSet :
          LET r == Apply(m, op) IN
          /\ m' = r.m
          /\ hist' = Append(hist, op)
          /\ EMIT => PrintT(<<"H", ToJson([tex |-> m.tex, ops |-> hist'])>>)
Spec == Init /\ [][Next]_vars
Bound == Small(m)
LastOf(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
View == << m.tex, Len(m.pos), Len(m.nrm), Len(m.txc), Len(m.verts), m.mode, m.cnt, m.cn, m.ct, Len(m.vc), LastOf(m.vc) >>
Inv == Sound(m)
(* a refused call changes nothing *)
RefusalsFrame == \A op \in OpSet : LET r == Apply(m, op) IN r.st = "throw" => r.m = m
(* groups never nest; opening and closing alternate *)
Brackets == m.mode = "none" <=> Apply(m, [op |-> "begin", mode |-> "QUADS"]).st = "ok"
=============================================================================
