------------------------------ MODULE SceneTrace ------------------------------
(* Exported scenes against what was added to their builders (numbers over     *)
(* 4000; the text holds six significant digits).                              *)
EXTENDS Scene, FiniteSets, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, s, ok
vars == <<h, k, s, ok>>

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 1
Hash(x) == "#" \o x
SourceOk(src, data, n, id, big) ==
  /\ src.id = id
  /\ big \/ Near(src.data, data)
  /\ src.len = 3 * n /\ src.count = 3 * n /\ src.acount = n /\ src.stride = 3
  /\ src.asource = Hash(src.arrayid)
  /\ src.params = << <<"X", "float">>, <<"Y", "float">>, <<"Z", "float">> >>
SourceNamed(g, ref) == CHOOSE i \in 1..Len(g.sources) : Hash(g.sources[i].id) = ref
HasSource(g, ref) == \E i \in 1..Len(g.sources) : Hash(g.sources[i].id) = ref
GeoOk(g, m) ==
  LET inV == { i \in 1..Len(g.inputs) : g.inputs[i].sem = "VERTEX" }
      inN == { i \in 1..Len(g.inputs) : g.inputs[i].sem = "NORMAL" }
      big == m.nb[1] > 100000 IN
  /\ Len(g.inputs) = 2 /\ Cardinality(inV) = 1 /\ Cardinality(inN) = 1
  /\ \A i \in inV : g.inputs[i].src = Hash(g.vid) /\ g.inputs[i].off = 0
  /\ \A i \in inN : /\ g.inputs[i].off = 1
                    /\ HasSource(g, g.inputs[i].src)
                    /\ LET n == g.sources[SourceNamed(g, g.inputs[i].src)] IN SourceOk(n, m.nrm, m.nb[2], n.id, big)
  /\ g.vin[1] = "POSITION" /\ HasSource(g, g.vin[2])
  /\ LET p == g.sources[SourceNamed(g, g.vin[2])] IN SourceOk(p, m.pos, m.nb[1], p.id, big)
  /\ g.count = Len(m.vc) /\ g.vcount = m.vc /\ g.p = m.verts

DefIds(d) == { d.def[i][1] : i \in 1..Len(d.def) }
Resolves(d, r, tag) == \E i \in 1..Len(d.def) : Hash(d.def[i][1]) = r /\ d.def[i][2] = tag
(* the kind of element a reference must lead to *)
Kinds(tag) == CASE tag = "instance_geometry" -> {"geometry"} [] tag = "instance_visual_scene" -> {"visual_scene"}
                [] tag = "instance_material" -> {"material"} [] tag = "instance_effect" -> {"effect"}
                [] tag = "accessor" -> {"float_array"} [] tag = "input" -> {"source", "vertices"} [] OTHER -> {}
DocOk(d, items, color) ==
  /\ Cardinality(DefIds(d)) = Len(d.def)                         \* identifiers are unique
  /\ \A i \in 1..Len(d.ref) : \E t \in Kinds(d.ref[i][2]) : Resolves(d, d.ref[i][1], t)
  /\ Len(d.geos) = Len(items) /\ Len(d.nodes) = Len(items)
  /\ Len(d.scenes) = 1 /\ d.inst = Hash(d.scenes[1])
  /\ Len(d.mats) = 1 /\ Len(d.fx) = 1 /\ d.mats[1][2] = Hash(d.fx[1].id)
  /\ Near(d.fx[1].color, [i \in 1..4 |-> 1000 * color[i]])
  /\ \A i \in 1..Len(items) :
       LET n == d.nodes[i] IN
       /\ Near(n.matrix, [j \in 1..16 |-> IF j <= 12 THEN 1000 * items[i].tf[j] ELSE IF j = 16 THEN 4000 ELSE 0])
       /\ n.geoms = 1 /\ n.target = Hash(d.mats[1][1])
       /\ \E g \in 1..Len(d.geos) :
            /\ n.url = Hash(d.geos[g].id)
            /\ GeoOk(d.geos[g], items[i].g)
            /\ n.symbol = d.geos[g].symbol
            /\ \A j \in 1..Len(items) : j # i => d.nodes[j].url # n.url
(* the bounding box of a solid *)
RECURSIVE MaxAt(_, _, _)
MaxAt(p, i, c) == IF i > Len(p) THEN -1000000 ELSE LET r == MaxAt(p, i + 3, c) IN IF p[i + c] > r THEN p[i + c] ELSE r
Box(op) == CASE op.shape = "sphere" -> <<op.d[3], op.d[3], op.d[3]>>
             [] op.shape = "pill" -> <<op.d[3], op.d[3], op.d[1] + op.d[3]>>
             [] op.shape = "rrect" -> <<op.d[1] + op.d[3], op.d[2] + op.d[3], op.d[3]>>
ShapeOk(op, m) == (op.op = "shape" /\ op.shape \in Solids) =>
  \A c \in 1..3 : Abs(MaxAt(m.pos, 1, c - 1) - 1000 * Box(op)[c]) <= 40

Init == h \in 1..Len(Recs) /\ k = 0 /\ s = Start(0) /\ ok = TRUE
Next == /\ ok /\ k < Len(Recs[h].steps)
        /\ LET st == Recs[h].steps[k + 1]
               r == Apply(s, st.op, st.mesh)
               ds == st.docs
               good == /\ st.st = r.st
                       /\ ShapeOk(st.op, st.mesh)
                       /\ { ds[i].b : i \in 1..Len(ds) } = DOMAIN r.s
                       /\ \A i \in 1..Len(ds) : DocOk(ds[i], r.s[ds[i].b], Recs[h].color) IN
           /\ s' = r.s /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, st.op.op>>)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
