------------------------------- MODULE Bodies -------------------------------
(* Rigid bodies as the matter they stand for: total mass M, first moment h and  *)
(* second moments S about the origin of the common frame (S over D^2, D the     *)
(* common denominator of the rotations of a history).                          *)
(* A body handed to the library is a mass, a placement (basis R/d, centre t)    *)
(* and an inertia matrix about its centre, in its basis (6 integers: xx xy xz   *)
(* yy yz zz, with even trace). A machine over registers: bodies are placed,     *)
(* combined in any order; a further register accumulates an inertia about the   *)
(* origin.                                                                     *)
EXTENDS Rat

Full9(s) == << s[1],s[2],s[3], s[2],s[4],s[5], s[3],s[5],s[6] >>
Trace9(m) == m[1] + m[5] + m[9]
(* inertia from second moments, and back (twice the moments) *)
InertiaOf(S) == VSub(VScale(Trace9(S), I9), S)
MomentsOf(I) == VSub(VScale(Trace9(I) \div 2, I9), I)
Congr(R, X) == MMul(MMul(R, X), MTr(R))

(* p: the placement, a motion with whole translation: [m, d, t] with t over 1 *)
Placement(rpy, t) == [r |-> Rpy(rpy[1], rpy[2], rpy[3]), t |-> t]
Body(D, M, I, p) == LET e == D \div p.r.d IN
  [M |-> M, h |-> VScale(M, p.t),
   S |-> VAdd(VScale(e * e, Congr(p.r.m, MomentsOf(I))), VScale(M * D * D, Outer(p.t, p.t))),
   r |-> p.r]
(* the compound, with the basis of the first *)
Combine(a, b) == [M |-> a.M + b.M, h |-> VAdd(a.h, b.h), S |-> VAdd(a.S, b.S), r |-> a.r]
(* second moments about the centre of mass, in the common basis, over M*D^2 *)
Central(D, a) == VSub(VScale(a.M, a.S), VScale(D * D, Outer(a.h, a.h)))
(* inertia about the centre of mass in the body's basis, over M*D^2*d^2 *)
OwnInertia(D, a) == InertiaOf(Congr(MTr(a.r.m), Central(D, a)))
Scale(D, a) == a.M * D * D * a.r.d * a.r.d
(* the inertia of a point about the origin *)
PointInertia(m, p) == InertiaOf(VScale(m, Outer(p, p)))

(* the textbook: both central moments, and the reduced mass times the square of the distance *)
(* (all over a.M * b.M * M * D^2, in the common basis) *)
Textbook(D, a, b) ==
  LET delta == VSub(VScale(b.M, a.h), VScale(a.M, b.h))       \* a.M * b.M * distance
  IN VAdd(VScale(a.M + b.M, VAdd(VScale(b.M, Central(D, a)), VScale(a.M, Central(D, b)))),
          VScale(D * D, Outer(delta, delta)))
=============================================================================
