-------------------------------- MODULE UrdfMC --------------------------------
(* Model checking of Urdf.tla over every small robot, and generation of the   *)
(* behaviours that are replayed on the real code.                             *)
EXTENDS Urdf, Json
CONSTANTS WORLD,    \* which family of robots and operations
          NL,       \* number of links
          DEPTH,    \* number of operations
          EMIT      \* print the behaviours

VARIABLES in0, doc, hist
vars == <<in0, doc, hist>>

LN == <<"a", "b", "c", "d", "e">>
JN == <<"", "jz", "jy", "jx", "jw">>    \* joint above link i; not in alphabetical order
Perms(S) == { f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j }

(* input form of an element (what the driver reads): xyz integers, rpy as <<cos, sin>> *)
Q0 == <<1, 0>>  Q90 == <<0, 1>>  Q180 == <<-1, 0>>  Q270 == <<0, -1>>
A(q) == <<q[1], q[2], 1>>
PoseIn(xyz, rpy) == [xyz |-> xyz, rpy |-> rpy]
ToMotion(p) == Compose(Translation(p.xyz), Rpy(A(p.rpy[1]), A(p.rpy[2]), A(p.rpy[3])))
PoseSet == { PoseIn(<<0,0,0>>, <<Q0,Q0,Q0>>),
             PoseIn(<<1,2,0>>, <<Q0,Q0,Q0>>),
             PoseIn(<<0,0,0>>, <<Q90,Q0,Q270>>),
             PoseIn(<<0,-1,3>>, <<Q0,Q90,Q90>>) }
Id0 == PoseIn(<<0,0,0>>, <<Q0,Q0,Q0>>)

ElIn(kind, p) == [k |-> kind, xyz |-> p.xyz, rpy |-> p.rpy]
MassIn(p, m, I) == [k |-> "inertial", xyz |-> p.xyz, rpy |-> p.rpy, mass |-> m, I |-> I]

(* reading of the input form: what an inertial element means *)
ElOf(e) ==
  LET p == ToMotion(e) IN
  IF e.k # "inertial" THEN [k |-> e.k, p |-> p]
  ELSE LET I == Sym9(e.I)
           tr == I[1] + I[5] + I[9]
           S == VSub(VScale(tr, I9), VScale(2, I))   \* twice the second moments
           si == << e.mass, 0, 0, 0 >> \o [k \in 1..6 |-> Sym6(S)[k] * (SID \div 2)]
       IN [k |-> e.k, p |-> p, si |-> MoveSI(p, si)]
ElemOf(e) ==
  IF e.k = "link" THEN [k |-> "link", n |-> e.n, els |-> [i \in 1..Len(e.els) |-> ElOf(e.els[i])]]
  ELSE [k |-> "joint", n |-> e.n, pa |-> e.pa, ch |-> e.ch, ty |-> e.ty, p |-> ToMotion(e),
        ax |-> VScale(5, e.ax), mi |-> ""]
ReadIn(d) == [i \in 1..Len(d) |-> ElemOf(d[i])]

(* parent of each link but the root (0 for the root): every rooted tree *)
Parents == { f \in [1..NL -> 0..NL] :
              /\ Cardinality({ i \in 1..NL : f[i] = 0 }) = 1
              /\ \A i \in 1..NL : f[i] # i }
RECURSIVE Up(_, _, _)
Up(f, i, n) == IF n = 0 \/ i = 0 THEN i ELSE Up(f, f[i], n - 1)
Trees == { f \in Parents : \A i \in 1..NL : Up(f, i, NL) = 0 }
RootOf(f) == CHOOSE i \in 1..NL : f[i] = 0

Link(i, els) == [k |-> "link", n |-> LN[i], els |-> els]
Joint(f, i, ty, p, ax) == [k |-> "joint", n |-> (IF JN[i] = "" THEN "jr" ELSE JN[i]), pa |-> LN[f[i]], ch |-> LN[i], ty |-> ty,
                           xyz |-> p.xyz, rpy |-> p.rpy, ax |-> ax]

StructDocs(w) ==
  { [i \in 1..NL |-> Link(i, <<>>)] \o [i \in 1..(NL-1) |-> Joint(fo[1], fo[2][i], "revolute", Id0, <<0,0,1>>)] :
     fo \in UNION { { <<f, o>> : o \in Perms((1..NL) \ {RootOf(f)}) } : f \in Trees } }

(* one tree shape per NL is enough here: the poses and types vary *)
Types == { <<"revolute", <<0,0,1>>>>, <<"prismatic", <<1,0,0>>>>, <<"fixed", <<1,0,0>>>>, <<"continuous", <<0,-1,0>>>>,
           <<"floating", <<1,0,0>>>>, <<"planar", <<0,1,0>>>> }
PoseTrees == { f \in Trees : f[1] = 0 }
PoseDocs(w) ==
  { [i \in 1..NL |-> Link(i, << ElIn("visual", Id0), ElIn("collision", PoseIn(<<i, 0, 1>>, <<Q90, Q0, Q0>>)) >>)]
     \o [i \in 1..(NL-1) |-> Joint(x[1], i + 1, x[2][i][1], x[3][i], x[2][i][2])] :
     x \in PoseTrees \X [1..(NL-1) -> Types] \X [1..(NL-1) -> PoseSet] }

MassChoices == { <<>>, << MassIn(Id0, 1, <<2,0,0,4,0,6>>) >>,
                 << MassIn(PoseIn(<<1,0,2>>, <<Q0,Q0,Q90>>), 2, <<4,2,0,6,0,8>>) >> }
MassPoses == { Id0, PoseIn(<<1,0,0>>, <<Q90,Q0,Q90>>) }
MassDocs(w) ==
  { [i \in 1..NL |-> Link(i, x[2][i])]
     \o [i \in 1..(NL-1) |-> Joint(x[1], i + 1, x[3][i], x[4], <<0,0,1>>)] :
     x \in PoseTrees \X [1..NL -> MassChoices] \X [1..(NL-1) -> {"fixed", "revolute"}] \X MassPoses }

Docs == CASE WORLD = "struct" -> StructDocs(0) [] WORLD = "pose" -> PoseDocs(0) [] WORLD = "mass" -> MassDocs(0)

LinkNames(d) == NameSet(LinksOf(d))
JointNames(d) == NameSet(JointsOf(d))
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listing(S \ {x})

Ops(d) ==
  CASE WORLD = "struct" ->
         { [op |-> "rm_root"] }
         \cup { [op |-> "rm_leaf", n |-> n] : n \in JointNames(d) \cup {"nope"} }
         \cup { [op |-> "define_root", n |-> n] : n \in (LinkNames(d) \ {Root(d)}) \cup {"nope"} }
         \cup { [op |-> "remove_if", sel |-> Listing(S)] : S \in (SUBSET JointNames(d)) \ {{}} }
         \cup { [op |-> "traverse", prune |-> Listing(S)] : S \in { {n} : n \in JointNames(d) } }
    [] WORLD = "pose" ->
         { [op |-> "define_root", n |-> n] : n \in LinkNames(d) }
         \cup { [op |-> "transport", xyz |-> p.xyz, rpy |-> p.rpy] : p \in { PoseIn(<<1,2,0>>, <<Q0,Q0,Q0>>), PoseIn(<<0,-1,3>>, <<Q0,Q90,Q90>>) } }
    [] WORLD = "mass" ->
         { [op |-> "squash", n |-> n] : n \in JointNames(d) } \cup { [op |-> "squash_all"], [op |-> "massless"] }

Apply(d, op) ==
  CASE op.op = "rm_root" -> RmRoot(d)
    [] op.op = "rm_leaf" -> RmLeaf(d, op.n)
    [] op.op = "remove_if" -> RemoveIf(d, { op.sel[i] : i \in 1..Len(op.sel) })
    [] op.op = "define_root" -> DefineRoot(d, op.n)
    [] op.op = "transport" -> Done(Transport(d, Root(d), ToMotion(op)))
    [] op.op = "squash" -> Squash(d, op.n)
    [] op.op = "squash_all" -> SquashAll(d)
    [] op.op = "massless" -> MakeMasslessFixed(d)
    [] OTHER -> Done(d)

Init == in0 \in Docs /\ doc = ReadIn(in0) /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E op \in Ops(doc) : /\ doc' = Apply(doc, op).doc
                                /\ hist' = Append(hist, op)
        /\ UNCHANGED in0
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* properties of the specification *)
TypeOK == IsTree(doc)
(* the walk is complete, parents first, balanced *)
WalkOK ==
  LET w == Walk(doc, {})
      pre == Preorder(doc) post == Postorder(doc) IN
  /\ Len(w) = 2 * Len(JointsOf(doc))
  /\ NoDup(pre) /\ { pre[i] : i \in 1..Len(pre) } = JointNames(doc)
  /\ NoDup(post) /\ { post[i] : i \in 1..Len(post) } = JointNames(doc)
  /\ \A i, j \in 1..Len(pre) : JointNamed(doc, pre[i]).ch = JointNamed(doc, pre[j]).pa => i < j
  /\ \A i, j \in 1..Len(post) : JointNamed(doc, post[i]).ch = JointNamed(doc, post[j]).pa => j < i
(* pruned walks: nothing below, siblings kept *)
PruneOK == WORLD = "struct" => \A n \in JointNames(doc) :
  LET ev == Walk(doc, {n})
      seen == { ev[i][2] : i \in 1..Len(ev) } IN
  seen = JointNames(doc) \ Below(doc, JointNamed(doc, n).ch)
Angles == { <<1,0,1,0>>, <<0,1,1,2>>, <<3,4,5,-1>> }
QFor(c) == [n \in JointNames(doc) |-> c]
(* re-rooting and moving the root frame never change the mechanism *)
Mechanism == WORLD = "pose" => LET d0 == ReadIn(in0) IN \A c \in Angles : SameMechanismAt(d0, doc, QFor(c))
(* the total spatial inertia is conserved (massless joints made fixed stay at rest) *)
MassConserved == WORLD = "mass" =>
  LET d0 == ReadIn(in0)  c == <<1,0,1,0>> IN
  TotalSI(doc, QFor(c)) = TotalSI(d0, QFor(c))
MassConservedMoving == WORLD = "mass" /\ (\A i \in 1..Len(hist) : hist[i].op = "squash_all") =>
  LET d0 == ReadIn(in0)  c == <<0,1,1,0>> IN
  TotalSI(doc, QFor(c)) = TotalSI(d0, QFor(c))
FixedOnly == (WORLD = "mass" /\ Len(hist) > 0 /\ hist[Len(hist)].op \in {"squash_all", "massless"}) =>
  \A i \in 1..Len(doc) : doc[i].k = "joint" =>
     /\ doc[i].ty = "fixed" => ~HasMass(LinkNamed(doc, doc[i].ch))
     /\ hist[Len(hist)].op = "massless" => (doc[i].ty = "fixed" <=> ~HasMass(LinkNamed(doc, doc[i].ch)))

(* re-rooting back and forth restores the structure *)
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([doc |-> in0, ops |-> hist])>>)
=============================================================================
