-------------------------------- MODULE Mesh --------------------------------
(* Mesh assembly: the begin/vertex/end protocol of AL::Mesh.                  *)
(* State: tex (texture coordinates wanted), pos, nrm, txc (sequences of       *)
(* tuples), verts (flat index sequence), vc (vertices per polygon), mode,     *)
(* cnt (vertices of the open group), cn, ct (current normal and texture       *)
(* coordinate, -1 when undefined). Indexes are those of the interface: 0...   *)
EXTENDS Integers, Sequences

New(tex) == [tex |-> tex, pos |-> <<>>, nrm |-> <<>>, txc |-> <<>>, verts |-> <<>>, vc |-> <<>>,
             mode |-> "none", cnt |-> 0, cn |-> -1, ct |-> -1]
Stride(m) == IF m.tex THEN 3 ELSE 2
Done(m, ret) == [st |-> "ok", ret |-> ret, m |-> m]
Refuse(m) == [st |-> "throw", ret |-> -1, m |-> m]

Position(m, v) == Done([m EXCEPT !.pos = Append(@, v)], Len(m.pos))
Normal(m, v) == Done([m EXCEPT !.nrm = Append(@, v), !.cn = Len(m.nrm)], Len(m.nrm))
NormalAt(m, i) == IF i >= 0 /\ i < Len(m.nrm) THEN Done([m EXCEPT !.cn = i], -1) ELSE Refuse(m)
TexCoord(m, v) == Done([m EXCEPT !.txc = Append(@, v), !.ct = Len(m.txc)], Len(m.txc))
TexCoordAt(m, i) == IF i >= 0 /\ i < Len(m.txc) THEN Done([m EXCEPT !.ct = i], -1) ELSE Refuse(m)
Begin(m, mode) == IF m.mode # "none" THEN Refuse(m) ELSE Done([m EXCEPT !.mode = mode, !.cnt = 0], -1)
CanVertex(m) == m.mode # "none" /\ m.cn # -1 /\ (m.tex => m.ct # -1)
PutVertex(m, i) ==
  [m EXCEPT !.verts = @ \o (IF m.tex THEN <<i, m.cn, m.ct>> ELSE <<i, m.cn>>), !.cnt = @ + 1]
VertexAt(m, i) ==
  IF CanVertex(m) /\ i >= 0 /\ i < Len(m.pos) THEN Done(PutVertex(m, i), -1) ELSE Refuse(m)
(* refused for want of a normal, the position alone may have been recorded *)
VertexNew(m, v) ==
  IF CanVertex(m) THEN Done(PutVertex([m EXCEPT !.pos = Append(@, v)], Len(m.pos)), -1) ELSE Refuse(m)
Arity(mode) == IF mode = "TRIANGLES" THEN 3 ELSE 4
End(m) ==
  IF m.mode = "none" THEN Refuse(m)
  ELSE IF m.mode = "POLYGON"
       THEN Done([m EXCEPT !.mode = "none", !.cnt = 0, !.vc = IF m.cnt = 0 THEN @ ELSE Append(@, m.cnt)], -1)
       ELSE IF m.cnt % Arity(m.mode) # 0 THEN Refuse(m)
            ELSE Done([m EXCEPT !.mode = "none", !.cnt = 0,
                                !.vc = @ \o [k \in 1..(m.cnt \div Arity(m.mode)) |-> Arity(m.mode)]], -1)

Apply(m, op) ==
  CASE op.op = "position" -> Position(m, op.v)
    [] op.op = "normal" -> Normal(m, op.v)
    [] op.op = "normalAt" -> NormalAt(m, op.i)
    [] op.op = "texCoord" -> TexCoord(m, op.v)
    [] op.op = "texCoordAt" -> TexCoordAt(m, op.i)
    [] op.op = "begin" -> Begin(m, op.mode)
    [] op.op = "vertexAt" -> VertexAt(m, op.i)
    [] op.op = "vertex" -> VertexNew(m, op.v)
    [] op.op = "end" -> End(m)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
(* what every history keeps true *)
Sound(m) ==
  LET w == Stride(m) n == Len(m.verts) \div w IN
  /\ Len(m.verts) % w = 0
  /\ Sum(m.vc) + m.cnt = n
  /\ m.mode = "none" => m.cnt = 0
  /\ \A k \in 0..(n-1) : /\ m.verts[k*w + 1] \in 0..(Len(m.pos) - 1)
                         /\ m.verts[k*w + 2] \in 0..(Len(m.nrm) - 1)
                         /\ m.tex => m.verts[k*w + 3] \in 0..(Len(m.txc) - 1)
  /\ \A k \in 1..Len(m.vc) : m.vc[k] > 0
=============================================================================
