------------------------------ MODULE Builder ------------------------------
(* Rigid-body builders: what a translation of a robot description asks of a   *)
(* builder, and what the decorators in front of a builder let through.        *)
(*  body  [c |-> "body",  pa, n, jn, p (motion), ty, si]                      *)
(*  frame [c |-> "frame", pa, n, jn, p]                                       *)
EXTENDS Urdf

(* configuration of a builder: pre, suf: joint names are pre \o body \o suf;  *)
(* nosf: static frames are not wanted; gal: name of the galilean frame        *)
JointName(cfg, body) == cfg.pre \o body \o cfg.suf
Body(pa, n, jn, p, ty, si) == [c |-> "body", pa |-> pa, n |-> n, jn |-> jn, p |-> p, ty |-> ty, si |-> si]
Frame(pa, n, jn, p) == [c |-> "frame", pa |-> pa, n |-> n, jn |-> jn, p |-> p]

AxisKind(ax) == CASE ax = <<5,0,0>> -> "rx" [] ax = <<0,5,0>> -> "ry" [] ax = <<0,0,5>> -> "rz" [] OTHER -> "none"
Kind(j) == CASE j.ty \in {"revolute", "continuous"} -> AxisKind(j.ax)
             [] j.ty = "floating" -> "free"
             [] j.ty = "fixed" -> "fixed"
             [] OTHER -> "none"
JointCall(doc, j) ==
  IF Kind(j) = "fixed" THEN Frame(j.pa, j.ch, j.n, j.p)
  ELSE Body(j.pa, j.ch, j.n, j.p, Kind(j), SI(LinkNamed(doc, j.ch)))

(* the description that is translated *)
Prepared(doc, rmroot, contfixed) ==
  LET a == IF rmroot THEN RmRoot(doc) ELSE Done(doc)
      b == IF contfixed THEN MakeContFixed(a.doc) ELSE a
  IN IF ~a.ok THEN a ELSE MakeMasslessFixed(b.doc)

(* requests in order, up to the first joint that cannot be expressed; ok: none such *)
Translation2(doc, cfg) ==
  LET r == Root(doc)
      pre == Preorder(doc)
      bad == { i \in 1..Len(pre) : Kind(JointNamed(doc, pre[i])) = "none" }
      n == IF bad = {} THEN Len(pre) ELSE (CHOOSE i \in bad : \A k \in bad : i <= k) - 1
      all == [i \in 1..n |-> JointCall(doc, JointNamed(doc, pre[i]))]
      kept == SelectSeq(all, LAMBDA x : ~(cfg.nosf /\ x.c = "frame"))
  IN IF ~HasMass(LinkNamed(doc, r)) THEN [ok |-> TRUE, calls |-> <<>>]
     ELSE [ok |-> bad = {},
           calls |-> <<Body("", r, JointName(cfg, r), IdMotion, "free", SI(LinkNamed(doc, r)))>> \o kept]
Translate(doc, rmroot, contfixed, cfg) ==
  IF ~IsTree(doc) THEN [ok |-> FALSE, calls |-> <<>>]
  ELSE LET p == Prepared(doc, rmroot, contfixed) IN
       IF ~p.ok THEN [ok |-> FALSE, calls |-> <<>>] ELSE Translation2(p.doc, cfg)

---------------------------------------------------------------------------
(* The name checker.  ks: [bodies, joints, frames, transforms]               *)
Checker0(cfg) == [bodies |-> {cfg.gal}, joints |-> {}, frames |-> {}, transforms |-> {}]
Allows(ks, x) ==
  /\ x.n \notin ks.bodies \cup ks.frames
  /\ x.jn \notin ks.joints \cup ks.transforms
  /\ x.pa \in (IF x.c = "body" THEN ks.bodies ELSE ks.bodies \cup ks.frames)
Learn(ks, x) == IF x.c = "body" THEN [ks EXCEPT !.bodies = @ \cup {x.n}, !.joints = @ \cup {x.jn}]
                ELSE [ks EXCEPT !.frames = @ \cup {x.n}, !.transforms = @ \cup {x.jn}]

(* A chain of builders from the front to the back: "names", "eraser", "plain" *)
(* (forwards as is), "cast" (other scalar); at the back a recorder that       *)
(* itself refuses the bodies and frames named in refuse.                      *)
(* Push: [st |-> state of each checker, out |-> <<>> or what arrives, ok]     *)
(* without rotational inertia at the centre of mass, the second moments are those of a point: S = h h^T / m *)
Erased(x) == IF x.c = "frame" THEN x
             ELSE LET m == x.si[1] h == SubSeq(x.si, 2, 4) o == Outer(h, h) IN
                  [x EXCEPT !.si = SubSeq(x.si, 1, 4) \o [k \in 1..6 |-> Sym6(o)[k] \div (m * SID)]]
RECURSIVE Push(_, _, _, _, _)
Push(chain, i, st, x, refuse) ==
  IF i > Len(chain) THEN IF x.n \in refuse THEN [ok |-> FALSE, st |-> st, out |-> <<>>]
                         ELSE [ok |-> TRUE, st |-> st, out |-> <<x>>]
  ELSE CASE chain[i] = "names" ->
              IF ~Allows(st[i], x) THEN [ok |-> FALSE, st |-> st, out |-> <<>>]
              ELSE LET r == Push(chain, i + 1, st, x, refuse) IN
                   IF r.ok THEN [r EXCEPT !.st[i] = Learn(@, x)] ELSE r
         [] chain[i] = "eraser" -> Push(chain, i + 1, st, Erased(x), refuse)
         [] OTHER -> Push(chain, i + 1, st, x, refuse)
RECURSIVE PushAll(_, _, _, _, _, _)
(* requests until one is refused *)
PushAll(chain, st, xs, i, acc, refuse) ==
  IF i > Len(xs) THEN [ok |-> TRUE, out |-> acc]
  ELSE LET r == Push(chain, 1, st, xs[i], refuse) IN
       IF ~r.ok THEN [ok |-> FALSE, out |-> acc]
       ELSE PushAll(chain, r.st, xs, i + 1, acc \o r.out, refuse)
StartChain(chain, cfg) == [i \in 1..Len(chain) |-> Checker0(cfg)]

(* what a list of forwarded requests must be *)
WellFormed(cfg, xs) ==
  \A i \in 1..Len(xs) :
     /\ \A k \in 1..(i-1) : xs[k].n # xs[i].n /\ xs[k].jn # xs[i].jn
     /\ xs[i].n # cfg.gal
     /\ xs[i].pa = cfg.gal \/ \E k \in 1..(i-1) : xs[k].n = xs[i].pa /\ (xs[i].c = "body" => xs[k].c = "body")
=============================================================================
