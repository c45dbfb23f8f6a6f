------------------------------ MODULE MeshTrace ------------------------------
(* Histories recorded from AL::Mesh against the protocol of module Mesh.      *)
EXTENDS Mesh, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, m, ok
vars == <<h, k, m, ok>>

Flat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE F[i-1] \o s[i] IN F[Len(s)]
(* what the accessors report *)
Shows(x, d) ==
  /\ d.pos = Flat(x.pos) /\ d.nrm = Flat(x.nrm) /\ d.txc = Flat(x.txc)
  /\ d.verts = x.verts /\ d.vc = x.vc
  /\ d.tex = x.tex /\ d.stride = Stride(x)
  /\ d.nb = << Len(x.pos), Len(x.nrm), Len(x.txc), Len(x.verts) \div Stride(x), Len(x.vc) >>
  /\ d.at = << d.pos, d.nrm, d.txc, d.verts, d.vc >>
(* a refused vertex(x,y,z) inside a group may leave its position behind: follow the code there *)
After(r, op, d) ==
  IF op.op = "vertex" /\ r.st = "throw" /\ r.m.mode # "none" /\ d.nb[1] = Len(r.m.pos) + 1
  THEN [r.m EXCEPT !.pos = Append(@, op.v)] ELSE r.m

Init == h \in 1..Len(Recs) /\ k = 0 /\ m = New(Recs[h].tex) /\ ok = TRUE
Next == /\ ok /\ k < Len(Recs[h].steps)
        /\ LET s == Recs[h].steps[k + 1]
               r == Apply(m, s.op)
               a == After(r, s.op, s.d)
               good == /\ s.st = r.st
                       /\ (r.st = "ok" => s.ret = r.ret)
                       /\ Shows(a, s.d)
                       /\ Sound(a) IN
           /\ m' = a
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, s.op.op>>)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
