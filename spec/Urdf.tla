-------------------------------- MODULE Urdf --------------------------------
(* Robot descriptions as documents, and the operations on them.              *)
(*                                                                           *)
(* A document is a sequence of elements:                                     *)
(*  link  [k |-> "link", n, els]   els: sequence of [k, p, si]               *)
(*        k in {"inertial","visual","collision"}, p: its pose as a motion,   *)
(*        si: <<mass, first moment(3), second moments(xx,xy,xz,yy,yz,zz)>>,  *)
(*        the spatial inertia with respect to the link frame, over SID       *)
(*  joint [k |-> "joint", n, pa, ch, ty, p, ax, mi]                          *)
(*        parent and child link names, type, origin, 5*axis, mimicked joint  *)
EXTENDS Rat, TLC

SID == 1250      \* denominator of first and second moments

IsLink(e) == e.k = "link"
IsJoint(e) == e.k = "joint"
LinksOf(doc) == SelectSeq(doc, IsLink)
JointsOf(doc) == SelectSeq(doc, IsJoint)
Names(s) == [i \in 1..Len(s) |-> s[i].n]
NameSet(s) == { s[i].n : i \in 1..Len(s) }
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

---------------------------------------------------------------------------
(* U01: acceptance *)
RECURSIVE ReachSet(_, _)
ReachSet(joints, R) ==
  LET R2 == R \cup { joints[i].ch : i \in { i \in 1..Len(joints) : joints[i].pa \in R } }
  IN IF R2 = R THEN R ELSE ReachSet(joints, R2)

RootCandidates(doc) ==
  LET ls == LinksOf(doc) js == JointsOf(doc)
  IN NameSet(ls) \ { js[i].ch : i \in 1..Len(js) }

MimicOf(joints, n) == LET i == CHOOSE i \in 1..Len(joints) : joints[i].n = n IN joints[i].mi
(* joints reachable by following "mimics" from joint n *)
RECURSIVE MimicReach(_, _)
MimicReach(joints, R) ==
  LET R2 == R \cup ({ joints[i].mi : i \in { i \in 1..Len(joints) : joints[i].n \in R } } \ {""})
  IN IF R2 = R THEN R ELSE MimicReach(joints, R2)
MimicOk(joints) ==
  \A i \in 1..Len(joints) : joints[i].mi # "" =>
     /\ joints[i].mi \in NameSet(joints)
     /\ joints[i].n \notin MimicReach(joints, {joints[i].mi})

IsTree(doc) ==
  LET ls == LinksOf(doc) js == JointsOf(doc) IN
  /\ ls # <<>>
  /\ NoDup(Names(ls))
  /\ NoDup(Names(js))
  /\ \A i \in 1..Len(js) : js[i].pa \in NameSet(ls) /\ js[i].ch \in NameSet(ls)
  /\ \A i, j \in 1..Len(js) : js[i].ch = js[j].ch => i = j
  /\ Cardinality(RootCandidates(doc)) = 1
  /\ ReachSet(js, RootCandidates(doc)) = NameSet(ls)
  /\ MimicOk(js)

Root(doc) == CHOOSE r \in RootCandidates(doc) : TRUE
MimicFlat(doc) ==
  LET js == JointsOf(doc) IN
  \A i \in 1..Len(js) : js[i].mi # "" => MimicOf(js, js[i].mi) = ""

---------------------------------------------------------------------------
(* U04: depth-first walk in document order.  prune: names answered "false"  *)
ChildJoints(doc, l) == SelectSeq(doc, LAMBDA e : e.k = "joint" /\ e.pa = l)
RECURSIVE WalkFrom(_, _, _)
RECURSIVE WalkJoints(_, _, _, _)
WalkFrom(doc, l, prune) == WalkJoints(doc, ChildJoints(doc, l), 1, prune)
WalkJoints(doc, js, i, prune) ==
  IF i > Len(js) THEN <<>>
  ELSE << <<"d", js[i].n>> >>
       \o (IF js[i].n \in prune THEN <<>> ELSE WalkFrom(doc, js[i].ch, prune))
       \o << <<"f", js[i].n>> >>
       \o WalkJoints(doc, js, i + 1, prune)
Walk(doc, prune) == WalkFrom(doc, Root(doc), prune)
IsDisc(ev) == ev[1] = "d"
IsFin(ev) == ev[1] = "f"
Preorder(doc) == LET w == SelectSeq(Walk(doc, {}), IsDisc) IN [i \in 1..Len(w) |-> w[i][2]]
Postorder(doc) == LET w == SelectSeq(Walk(doc, {}), IsFin) IN [i \in 1..Len(w) |-> w[i][2]]

JointIx(doc, n) == CHOOSE i \in 1..Len(doc) : doc[i].k = "joint" /\ doc[i].n = n
LinkIx(doc, n) == CHOOSE i \in 1..Len(doc) : doc[i].k = "link" /\ doc[i].n = n
HasJoint(doc, n) == \E i \in 1..Len(doc) : doc[i].k = "joint" /\ doc[i].n = n
HasLink(doc, n) == \E i \in 1..Len(doc) : doc[i].k = "link" /\ doc[i].n = n
JointNamed(doc, n) == doc[JointIx(doc, n)]
LinkNamed(doc, n) == doc[LinkIx(doc, n)]
ParentJoint(doc, l) == doc[CHOOSE i \in 1..Len(doc) : doc[i].k = "joint" /\ doc[i].ch = l]

(* names of the joints from link l up to the root, nearest l first *)
RECURSIVE PathUp(_, _)
PathUp(doc, l) == IF l = Root(doc) THEN <<>>
                  ELSE LET j == ParentJoint(doc, l) IN <<j.n>> \o PathUp(doc, j.pa)
(* joints strictly below (and including) a joint *)
RECURSIVE Below(_, _)
Below(doc, l) == LET js == ChildJoints(doc, l) IN
   { js[i].n : i \in 1..Len(js) } \cup UNION { Below(doc, js[i].ch) : i \in 1..Len(js) }

---------------------------------------------------------------------------
(* structural edits: result [ok, doc, ret]; refused edits leave doc alone   *)
Refuse(doc) == [ok |-> FALSE, doc |-> doc, ret |-> <<>>]
Done(doc) == [ok |-> TRUE, doc |-> doc, ret |-> <<>>]
DoneRet(doc, ret) == [ok |-> TRUE, doc |-> doc, ret |-> ret]

Without(doc, links, joints) ==
  SelectSeq(doc, LAMBDA e : ~(e.k = "link" /\ e.n \in links) /\ ~(e.k = "joint" /\ e.n \in joints))

RmRoot(doc) ==
  LET js == ChildJoints(doc, Root(doc)) IN
  IF Len(js) # 1 THEN Refuse(doc) ELSE Done(Without(doc, {Root(doc)}, {js[1].n}))

RmLeaf(doc, n) ==
  IF ~HasJoint(doc, n) THEN Refuse(doc)
  ELSE LET j == JointNamed(doc, n) IN
       IF ChildJoints(doc, j.ch) # <<>> THEN Refuse(doc)
       ELSE Done(Without(doc, {j.ch}, {n}))

RemoveIf(doc, sel) ==
  LET js == JointsOf(doc)
      gone == UNION { {js[i].n} \cup Below(doc, js[i].ch) : i \in { i \in 1..Len(js) : js[i].n \in sel } }
      lks == { js[i].ch : i \in { i \in 1..Len(js) : js[i].n \in gone } }
      InGone(x) == x \in gone
  IN DoneRet(Without(doc, lks, gone), SelectSeq(Preorder(doc), InGone))

MultiDof == {"floating", "planar"}
HasAxis == {"revolute", "continuous", "prismatic", "planar"}

(* transport of the frame of link l: everything attached to it is premultiplied by inv *)
Transport(doc, l, pose) ==
  LET inv == Inverse(pose) IN
  [i \in 1..Len(doc) |->
     IF doc[i].k = "joint" /\ doc[i].pa = l
     THEN [doc[i] EXCEPT !.p = Compose(inv, @)]
     ELSE IF doc[i].k = "link" /\ doc[i].n = l
     THEN [doc[i] EXCEPT !.els = [k \in 1..Len(@) |-> [@[k] EXCEPT !.p = Compose(inv, @)]]]
     ELSE doc[i]]

Flip(doc, n) ==
  LET j == JointNamed(doc, n)
      d1 == Transport(doc, j.pa, j.p)
      ix == JointIx(doc, n)
  IN [d1 EXCEPT ![ix] = [@ EXCEPT !.pa = j.ch, !.ch = j.pa,
                                  !.ax = IF j.ty \in HasAxis THEN VScale(-1, @) ELSE @]]
RECURSIVE FlipAll(_, _, _)
FlipAll(doc, path, i) == IF i = 0 THEN doc ELSE FlipAll(Flip(doc, path[i]), path, i - 1)

DefineRoot(doc, l) ==
  IF ~HasLink(doc, l) THEN Refuse(doc)
  ELSE LET p == PathUp(doc, l) IN
       IF \E i \in 1..Len(p) : JointNamed(doc, p[i]).ty \in MultiDof THEN Refuse(doc)
       ELSE Done(FlipAll(doc, p, Len(p)))

SetType(doc, names, ty) ==
  [i \in 1..Len(doc) |-> IF doc[i].k = "joint" /\ doc[i].n \in names
                         THEN [doc[i] EXCEPT !.ty = ty, !.ax = <<5,0,0>>] ELSE doc[i]]
MakeType(doc, n, ty) == IF ~HasJoint(doc, n) THEN Refuse(doc) ELSE Done(SetType(doc, {n}, ty))
MakeContFixed(doc) ==
  LET IsCont(n) == JointNamed(doc, n).ty = "continuous"
      ns == SelectSeq(Preorder(doc), IsCont)
  IN DoneRet(SetType(doc, {ns[i] : i \in 1..Len(ns)}, "fixed"), ns)

---------------------------------------------------------------------------
(* U05: masses.  Spatial inertia <<m, hx,hy,hz, sxx,sxy,sxz,syy,syz,szz>>,   *)
(* moments over SID.                                                         *)
Inertials(link) == SelectSeq(link.els, LAMBDA e : e.k = "inertial")
HasMass(link) == Inertials(link) # <<>>
SI(link) == Inertials(link)[1].si
Sym9(s) == << s[1],s[2],s[3], s[2],s[4],s[5], s[3],s[5],s[6] >>
Sym6(m) == << m[1],m[2],m[3], m[5],m[6],m[9] >>
(* moments expressed over SID; p a motion with small denominator *)
MoveSI(p, si) ==
  LET m == si[1]
      h == SubSeq(si, 2, 4)                        \* over SID
      S == Sym9(SubSeq(si, 5, 10))                 \* over SID
      Rh == MVec(p.m, h)                           \* over SID*d
      RSR == MMul(MMul(p.m, S), MTr(p.m))          \* over SID*d*d
      X == Outer(Rh, p.t)                          \* over SID*d*d
      T == VScale(m * SID, Outer(p.t, p.t))        \* over SID*d*d
      Sn == VAdd(VAdd(RSR, VAdd(X, MTr(X))), T)
      hn == VAdd(Rh, VScale(m * SID, p.t))
  IN << m >> \o [k \in 1..3 |-> hn[k] \div p.d] \o
     [k \in 1..6 |-> Sym6(Sn)[k] \div (p.d * p.d)]
AddSI(a, b) == VAdd(a, b)

SetSI(link, si) ==
  IF HasMass(link)
  THEN [link EXCEPT !.els = [k \in 1..Len(@) |-> IF @[k].k = "inertial" THEN [@[k] EXCEPT !.si = si] ELSE @[k]]]
  ELSE [link EXCEPT !.els = Append(@, [k |-> "inertial", p |-> IdMotion, si |-> si])]
DropSI(link) == [link EXCEPT !.els = SelectSeq(@, LAMBDA e : e.k # "inertial")]

Squash1(doc, n) ==
  LET j == JointNamed(doc, n)
      c == LinkNamed(doc, j.ch)
      p == LinkNamed(doc, j.pa)
      moved == MoveSI(j.p, SI(c))
      si == IF HasMass(p) THEN AddSI(SI(p), moved) ELSE moved
  IN IF ~HasMass(c) THEN doc
     ELSE [[doc EXCEPT ![LinkIx(doc, j.pa)] = SetSI(@, si)] EXCEPT ![LinkIx(doc, j.ch)] = DropSI(@)]
Squash(doc, n) == IF ~HasJoint(doc, n) THEN Refuse(doc) ELSE Done(Squash1(doc, n))

RECURSIVE SquashAllFrom(_, _, _)
SquashAllFrom(doc, ns, i) ==
  IF i > Len(ns) THEN doc
  ELSE SquashAllFrom(IF JointNamed(doc, ns[i]).ty = "fixed" THEN Squash1(doc, ns[i]) ELSE doc, ns, i + 1)
SquashAll(doc) == Done(SquashAllFrom(doc, Postorder(doc), 1))

RECURSIVE MasslessFrom(_, _, _, _)
MasslessFrom(doc, ns, i, ret) ==
  IF i > Len(ns) THEN [doc |-> doc, ret |-> ret]
  ELSE LET j == JointNamed(doc, ns[i]) IN
       IF j.ty = "fixed" THEN MasslessFrom(Squash1(doc, ns[i]), ns, i + 1, ret)
       ELSE IF ~HasMass(LinkNamed(doc, j.ch))
       THEN MasslessFrom(SetType(doc, {ns[i]}, "fixed"), ns, i + 1, Append(ret, ns[i]))
       ELSE MasslessFrom(doc, ns, i + 1, ret)
MakeMasslessFixed(doc) == LET r == MasslessFrom(doc, Postorder(doc), 1, <<>>) IN DoneRet(r.doc, r.ret)

---------------------------------------------------------------------------
(* U02: forward kinematics.  q: function from joint names to <<c, s, n, v>>: *)
(* angle with cosine c/n and sine s/n, or displacement v                     *)
JointMotion(j, q) ==
  LET a == j.ax  c == q[1]  s == q[2]  n == q[3] IN
  CASE j.ty \in {"revolute", "continuous", "planar"} ->
         MkMotion(VAdd(VAdd(VScale(25*c, I9), VScale(n - c, Outer(a, a))),
                       VScale(5*s, <<0,-a[3],a[2], a[3],0,-a[1], -a[2],a[1],0>>)), <<0,0,0>>, 25*n)
    [] j.ty = "prismatic" -> Norm([m |-> VScale(5, I9), t |-> VScale(q[4], a), d |-> 5])
    [] j.ty = "floating" -> Compose(Translation(<<1,2,q[4]>>), AxisRot(3, c, s, n))
    [] OTHER -> IdMotion

(* pose of every link with respect to the root link *)
RECURSIVE PosesFrom(_, _, _, _, _)
PosesFrom(doc, ns, i, acc, q) ==
  IF i > Len(ns) THEN acc
  ELSE LET j == JointNamed(doc, ns[i]) IN
       PosesFrom(doc, ns, i + 1,
                 acc @@ (j.ch :> Compose(acc[j.pa], Compose(j.p, JointMotion(j, q[j.n])))), q)
LinkPoses(doc, q) == PosesFrom(doc, Preorder(doc), 1, Root(doc) :> IdMotion, q)

(* every attached element, keyed by link and position within the link *)
Attached(doc) ==
  UNION { { <<l, k>> : k \in 1..Len(LinkNamed(doc, l).els) } : l \in NameSet(LinksOf(doc)) }
ElPose(doc, lp, a) == Compose(lp[a[1]], LinkNamed(doc, a[1]).els[a[2]].p)

(* same mechanism: same attached elements, same relative poses for joint values q *)
SameMechanismAt(d1, d2, q) ==
  LET A == Attached(d1) IN
  /\ Attached(d2) = A
  /\ A # {} =>
     LET lp1 == LinkPoses(d1, q)  lp2 == LinkPoses(d2, q)
         ref == CHOOSE a \in A : TRUE
         i1 == Inverse(ElPose(d1, lp1, ref))
         i2 == Inverse(ElPose(d2, lp2, ref))
     IN \A a \in A : SameMotion(Compose(i1, ElPose(d1, lp1, a)), Compose(i2, ElPose(d2, lp2, a)))
(* total spatial inertia in the frame of the root link *)
RECURSIVE SumSI(_, _, _, _)
SumSI(doc, lp, ls, i) ==
  IF i > Len(ls) THEN [k \in 1..10 |-> 0]
  ELSE LET rest == SumSI(doc, lp, ls, i + 1) IN
       IF HasMass(ls[i]) THEN AddSI(MoveSI(lp[ls[i].n], SI(ls[i])), rest) ELSE rest
TotalSI(doc, q) == LET lp == LinkPoses(doc, q) IN SumSI(doc, lp, LinksOf(doc), 1)
=============================================================================
