------------------------------- MODULE UrdfTrace -------------------------------
(* Validates histories recorded from the real RobotTree against Urdf.tla.     *)
(* One behaviour per recorded history; the state is the document.  FOCUS      *)
(* names the property whose clauses are demanded.                             *)
EXTENDS Urdf, Json
CONSTANTS TRACE, FOCUS
Recs == ndJsonDeserialize(TRACE)
N == Len(Recs)
VARIABLES h, k, doc, bad
vars == <<h, k, doc, bad>>

(* document read from a record: poses as motions *)
El(e) == IF e.k = "inertial" THEN [k |-> e.k, p |-> Motion12(e.p, 625), si |-> e.si]
         ELSE [k |-> e.k, p |-> Motion12(e.p, 625)]
Elem(e) == CASE e.k = "link" -> [k |-> "link", n |-> e.n, g |-> e.g, at |-> e.at,
                                 els |-> [i \in 1..Len(e.els) |-> El(e.els[i])]]
             [] e.k = "joint" -> [k |-> "joint", n |-> e.n, g |-> e.g, at |-> e.at, pa |-> e.pa, ch |-> e.ch,
                                  ty |-> e.ty, p |-> Motion12(e.p, 625), ax |-> e.ax, mi |-> e.mi]
             [] OTHER -> [k |-> e.k, n |-> e.n, g |-> e.g, at |-> e.at]
OnGrid(raw) == \A i \in 1..Len(raw) : raw[i].g
Read(raw) == [i \in 1..Len(raw) |-> Elem(raw[i])]
Q(r) == [i \in 1..Len(r.q) |-> r.q[i]]

---------------------------------------------------------------------------
(* attribute-level comparisons: at = <<keys, path, text>> *)
AtWithout(e, Drop(_)) == SelectSeq(e.at, LAMBDA a : ~Drop(a[1]))
NoDrop(keys) == FALSE
(* what a change of frames or of root may touch *)
FrameKeys(kind, keys) ==
  IF kind = "joint" THEN keys[1] \in {"origin", "parent", "child", "axis"}
  ELSE IF kind = "link" THEN Len(keys) >= 2 /\ keys[1] \in {"inertial", "visual", "collision"} /\ keys[2] = "origin"
  ELSE FALSE
SameButFrames(d1, d2) ==
  /\ Len(d1) = Len(d2)
  /\ \A i \in 1..Len(d1) :
       /\ d1[i].k = d2[i].k
       /\ d1[i].n = d2[i].n
       /\ LET D(keys) == FrameKeys(d1[i].k, keys) IN AtWithout(d1[i], D) = AtWithout(d2[i], D)
Shape(d) == [i \in 1..Len(d) |-> <<d[i].k, d[i].n>>]

---------------------------------------------------------------------------
(* the live tree agrees with a fresh reading of the document *)
LiveFresh(s) == /\ s.fresh.ok
                /\ s.live.root = s.fresh.root
                /\ s.live.walk = s.fresh.walk
                /\ s.live.links = s.fresh.links
                /\ s.live.joints = s.fresh.joints
(* ... and with the document as the specification reads it *)
ViewOf(d, v) == /\ v.root = Root(d)
                /\ v.walk = Walk(d, {})
                /\ { v.links[i] : i \in 1..Len(v.links) } = NameSet(LinksOf(d))
                /\ { v.joints[i] : i \in 1..Len(v.joints) } = NameSet(JointsOf(d))

(* outcome of a structural edit according to the specification *)
Apply(d, op) ==
  CASE op.op = "rm_root" -> RmRoot(d)
    [] op.op = "rm_leaf" -> RmLeaf(d, op.n)
    [] op.op = "remove_if" -> RemoveIf(d, { op.sel[i] : i \in 1..Len(op.sel) })
    [] op.op = "define_root" -> DefineRoot(d, op.n)
    [] op.op = "make_fixed" -> MakeType(d, op.n, "fixed")
    [] op.op = "make_floating" -> MakeType(d, op.n, "floating")
    [] op.op = "cont_fixed" -> MakeContFixed(d)
    [] op.op = "squash" -> Squash(d, op.n)
    [] op.op = "squash_all" -> SquashAll(d)
    [] op.op = "massless" -> MakeMasslessFixed(d)
    [] OTHER -> Done(d)

Unchanged(d, d2, s) == ~s.ok /\ d2 = d

(* ---- U02 ---- *)
OkDefineRoot(d, d2, s, q) ==
  LET n == s.op.n IN
  IF ~DefineRoot(d, n).ok THEN Unchanged(d, d2, s)
  ELSE LET path == PathUp(d, n)
           P == { path[i] : i \in 1..Len(path) } IN
       /\ s.ok
       /\ SameButFrames(d, d2)
       /\ s.live.root = n
       /\ \A i \in 1..Len(d) : d[i].k = "joint" =>
            IF d[i].n \in P
            THEN /\ d2[i].pa = d[i].ch /\ d2[i].ch = d[i].pa
                 /\ d[i].ty \in HasAxis => d2[i].ax = VScale(-1, d[i].ax)
            ELSE /\ d2[i].pa = d[i].pa /\ d2[i].ch = d[i].ch
                 /\ d2[i].ax = d[i].ax
                 /\ d[i].pa = n => SameMotion(d[i].p, d2[i].p)
       /\ IsTree(d2) /\ Root(d2) = n
       /\ LET a == LinkNamed(d, n).els  b == LinkNamed(d2, n).els IN
          /\ Len(a) = Len(b)
          /\ \A i \in 1..Len(a) : SameMotion(a[i].p, b[i].p)
       /\ \A i \in 1..Len(q) : SameMechanismAt(d, d2, q[i])
OkTransport(d, d2, s, q) ==
  LET r == Root(d)
      inv == Inverse(Motion12(s.pose, 625)) IN
  /\ s.ok
  /\ SameButFrames(d, d2)
  /\ s.live.root = r
  /\ \A i \in 1..Len(d) :
       /\ d[i].k = "joint" =>
            /\ d2[i].pa = d[i].pa /\ d2[i].ch = d[i].ch /\ d2[i].ax = d[i].ax
            /\ IF d[i].pa = r THEN SameMotion(d2[i].p, Compose(inv, d[i].p)) ELSE d2[i] = d[i]
       /\ d[i].k = "link" =>
            /\ Len(d[i].els) = Len(d2[i].els)
            /\ IF d[i].n = r THEN \A j \in 1..Len(d[i].els) : SameMotion(d2[i].els[j].p, Compose(inv, d[i].els[j].p))
               ELSE d2[i] = d[i]
  /\ \A i \in 1..Len(q) : SameMechanismAt(d, d2, q[i])

(* ---- U03 ---- *)
OkStructural(d, d2, s) ==
  LET r == Apply(d, s.op) IN
  IF ~r.ok THEN Unchanged(d, d2, s)
  ELSE /\ s.ok
       /\ CASE s.op.op \in {"rm_root", "rm_leaf", "remove_if"} -> d2 = r.doc
            [] OTHER -> Shape(d2) = Shape(d)
       /\ s.op.op = "remove_if" => s.ret = r.ret
       /\ IsTree(d2)

(* ---- U04 ---- *)
DotLines(d) ==
  LET pre == Preorder(d) IN
  [i \in 1..Len(pre) |-> LET j == JointNamed(d, pre[i]) IN
     j.pa \o " -> " \o j.ch \o " [label=" \o j.n \o "];"]
(* indentation and a trailing end of line are not prescribed: the driver strips them *)
OkTraverse(d, d2, s) ==
  CASE s.op.op = "traverse" -> s.ok /\ d2 = d /\ s.ev = Walk(d, { s.op.prune[i] : i \in 1..Len(s.op.prune) })
    [] s.op.op = "dot" -> s.ok /\ d2 = d /\ s.ret = DotLines(d)
    [] OTHER -> IsTree(d2) => s.live.walk = Walk(d2, {})

(* ---- U05 ---- *)
NonInertial(l) == SelectSeq(l.els, LAMBDA e : e.k # "inertial")
MassKeys(keys) == keys[1] = "inertial"
SameMass(l, m) == \* m: as the specification wants it
  /\ Len(Inertials(l)) = Len(Inertials(m))
  /\ Inertials(m) # <<>> => SI(l) = SI(m)
OkMass(d, d2, s) ==
  LET r == Apply(d, s.op) IN
  IF ~r.ok THEN Unchanged(d, d2, s)
  ELSE /\ s.ok
       /\ Shape(d2) = Shape(d)
       /\ \A i \in 1..Len(d) :
            CASE d[i].k = "link" ->
                   /\ NonInertial(d2[i]) = NonInertial(d[i])
                   /\ AtWithout(d2[i], MassKeys) = AtWithout(d[i], MassKeys)
                   /\ SameMass(d2[i], r.doc[i])
              [] d[i].k = "joint" -> [d2[i] EXCEPT !.at = <<>>, !.ax = <<>>] = [r.doc[i] EXCEPT !.at = <<>>, !.ax = <<>>]
              [] OTHER -> d2[i] = d[i]
       /\ s.op.op = "massless" => s.ret = r.ret

(* ---- U07 ---- *)
TypeKeys(keys) == keys[1] = "axis" \/ keys = <<"<xmlattr>", "type">>
TypeOf(e) == SelectSeq(e.at, LAMBDA a : a[1] = <<"<xmlattr>", "type">>)
OkTypeChange(d, d2, names, ty) ==
  /\ Shape(d2) = Shape(d)
  /\ \A i \in 1..Len(d) :
       IF d[i].k = "joint" /\ d[i].n \in names
       THEN /\ AtWithout(d2[i], TypeKeys) = AtWithout(d[i], TypeKeys)
            /\ d2[i].ty = ty
            /\ SelectSeq(d2[i].at, LAMBDA a : a[1][1] = "axis") = <<>>
       ELSE d2[i] = d[i]
FileKeys(kind, keys) ==
  \/ kind = "material" /\ keys = <<"texture", "<xmlattr>", "filename">>
  \/ kind = "link" /\ keys \in { <<"visual", "geometry", "mesh", "<xmlattr>", "filename">>,
                                 <<"collision", "geometry", "mesh", "<xmlattr>", "filename">>,
                                 <<"visual", "material", "texture", "<xmlattr>", "filename">> }
NewAt(e) == [i \in 1..Len(e.at) |->
   IF FileKeys(e.k, e.at[i][1]) THEN [e.at[i] EXCEPT ![3] = "new:" \o @] ELSE e.at[i]]
FileNames(d) == UNION { { d[i].at[j][3] : j \in { j \in 1..Len(d[i].at) : FileKeys(d[i].k, d[i].at[j][1]) } } : i \in 1..Len(d) }
OkEdit(d, d2, s) ==
  CASE s.op.op = "make_fixed" -> IF HasJoint(d, s.op.n) THEN s.ok /\ OkTypeChange(d, d2, {s.op.n}, "fixed") ELSE Unchanged(d, d2, s)
    [] s.op.op = "make_floating" -> IF HasJoint(d, s.op.n) THEN s.ok /\ OkTypeChange(d, d2, {s.op.n}, "floating") ELSE Unchanged(d, d2, s)
    [] s.op.op = "cont_fixed" ->
         LET r == MakeContFixed(d) IN
         s.ok /\ s.ret = r.ret /\ OkTypeChange(d, d2, { r.ret[i] : i \in 1..Len(r.ret) }, "fixed")
    [] s.op.op = "filenames" ->
         /\ s.ok
         /\ { s.ret[i] : i \in 1..Len(s.ret) } = FileNames(d)
         /\ d2 = [i \in 1..Len(d) |-> [d[i] EXCEPT !.at = NewAt(d[i])]]
    [] s.op.op = "put_name" ->
         LET a == LinkNamed(d, s.op.n).at IN
         s.ok /\ d2 = d /\ s.ret = [i \in 1..Len(a) |-> IF a[i][1] = <<"<xmlattr>", "name">> THEN [a[i] EXCEPT ![3] = s.op.to] ELSE a[i]]
    [] OTHER -> TRUE

StepOk(d, d2, s, r) ==
  CASE FOCUS = "U02" ->
         CASE s.op.op = "define_root" -> OkDefineRoot(d, d2, s, Q(r))
           [] s.op.op = "transport" -> OkTransport(d, d2, s, Q(r))
           [] OTHER -> FALSE
    [] FOCUS = "U03" -> OkStructural(d, d2, s) /\ (IsTree(d2) => LiveFresh(s) /\ ViewOf(d2, s.live))
    [] FOCUS = "U04" -> OkTraverse(d, d2, s)
    [] FOCUS = "U05" -> IF s.op.op \in {"squash", "squash_all", "massless"} THEN OkMass(d, d2, s) ELSE TRUE
    [] FOCUS = "U07" -> OkEdit(d, d2, s)

OpenOk(d, r) ==
  LET o == r.open IN
  CASE FOCUS = "U01" ->
         /\ o.same
         /\ o.ok = IsTree(d)
         /\ o.ok => /\ o.root = Root(d)
                    /\ o.flat = MimicFlat(d)
    [] FOCUS = "U04" -> o.ok /\ o.view.walk = Walk(d, {})
    [] FOCUS = "U03" -> o.ok /\ ViewOf(d, o.view)
    [] OTHER -> o.ok

---------------------------------------------------------------------------
Init == h \in 1..N /\ k = 0 /\ doc = <<>> /\ bad = FALSE

Report(ok, why) == IF ok THEN bad' = FALSE ELSE bad' = TRUE /\ PrintT(<<"BAD", h, k, why>>)

Open == /\ k = 0
        /\ LET r == Recs[h] IN
           IF ~OnGrid(r.doc) THEN Report(FALSE, "projection") /\ doc' = <<>>
           ELSE LET d == Read(r.doc) IN doc' = d /\ Report(OpenOk(d, r), "open")
        /\ k' = 1
Step == /\ k \in 1..Len(Recs[h].steps)
        /\ ~bad
        /\ LET s == Recs[h].steps[k] IN
           IF ~OnGrid(s.doc) THEN Report(FALSE, "offgrid") /\ doc' = <<>>
           ELSE LET d2 == Read(s.doc) IN doc' = d2 /\ Report(StepOk(doc, d2, s, Recs[h]), s.op.op)
        /\ k' = k + 1
Next == (Open \/ Step) /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
View == <<h, k, bad>>
ASSUME PrintT(<<"JUDGED", N>>)
=============================================================================
