----------------------------- MODULE BuilderMC -----------------------------
(* WORLD "robots": the translation of every small robot is complete,          *)
(* well-formed and conserves the mass; WORLD "names": every history of        *)
(* requests to a name checker.                                                *)
EXTENDS Builder, Json
CONSTANTS WORLD, NL, DEPTH, EMIT
VARIABLES in0, hist, st, fwd
vars == <<in0, hist, st, fwd>>
Cfg == [pre |-> "", suf |-> "_joint", nosf |-> FALSE, gal |-> ""]

LN == <<"a", "b", "c", "d">>
JN == <<"jr", "jz", "jy", "jx">>
Q0 == <<1, 0>>  Q90 == <<0, 1>>
Par == { f \in [1..NL -> 0..NL] : f[1] = 0 /\ \A i \in 2..NL : f[i] \in 1..(i-1) }
JT == { <<"revolute", <<1,0,0>>>>, <<"continuous", <<0,0,1>>>>, <<"fixed", <<1,0,0>>>>, <<"floating", <<1,0,0>>>>, <<"planar", <<0,1,0>>>>,
        <<"revolute", <<0,-1,0>>>> }
Els(m) == IF m = 0 THEN <<>> ELSE <<[k |-> "inertial", xyz |-> <<m, 0, 1>>, rpy |-> <<Q0, Q90, Q0>>, mass |-> m, I |-> <<2*m,0,0,4,0,2>>]>>
DocIn(f, ts, ms) ==
  [i \in 1..NL |-> [k |-> "link", n |-> LN[i], els |-> Els(ms[i])]] \o
  [i \in 1..(NL-1) |-> [k |-> "joint", n |-> JN[i+1], pa |-> LN[f[i+1]], ch |-> LN[i+1], ty |-> ts[i][1], ax |-> ts[i][2],
                        xyz |-> <<1, i, 0>>, rpy |-> <<Q90, Q0, Q0>>]]
Robots(w) == { [doc |-> DocIn(x[1], x[2], x[3]), rmroot |-> x[4], contfixed |-> x[5]] :
               x \in Par \X [1..(NL-1) -> JT] \X [1..NL -> 0..2] \X BOOLEAN \X BOOLEAN }

A(q) == <<q[1], q[2], 1>>
ToMotion(p) == Compose(Translation(p.xyz), Rpy(A(p.rpy[1]), A(p.rpy[2]), A(p.rpy[3])))
ElOf(e) == LET I == Sym9(e.I) tr == I[1] + I[5] + I[9] S == VSub(VScale(tr, I9), VScale(2, I)) IN
  [k |-> e.k, p |-> ToMotion(e), si |-> MoveSI(ToMotion(e), <<e.mass, 0, 0, 0>> \o [k \in 1..6 |-> Sym6(S)[k] * (SID \div 2)])]
ReadIn(d) == [i \in 1..Len(d) |->
  IF d[i].k = "link" THEN [k |-> "link", n |-> d[i].n, els |-> [x \in 1..Len(d[i].els) |-> ElOf(d[i].els[x])]]
  ELSE [k |-> "joint", n |-> d[i].n, pa |-> d[i].pa, ch |-> d[i].ch, ty |-> d[i].ty, p |-> ToMotion(d[i]), ax |-> VScale(5, d[i].ax), mi |-> ""]]

Reqs == { [c |-> c, pa |-> pa, n |-> n, jn |-> jn] :
          c \in {"body", "frame"}, pa \in {"", "a", "b"}, n \in {"", "a", "b"}, jn \in {"j", "k"} }
Init == /\ fwd = <<>> /\ st = StartChain(<<"names">>, Cfg) /\ hist = <<>>
        /\ in0 \in (IF WORLD = "robots" THEN Robots(0) ELSE { {}, {"b"} })
Next == /\ Len(hist) < DEPTH /\ UNCHANGED in0
        /\ \E x \in Reqs :
             LET r == Push(<<"names">>, 1, st, x, in0) IN
             /\ st' = r.st /\ fwd' = fwd \o r.out /\ hist' = Append(hist, x)
             /\ r.out # <<>> => r.out = <<x>>
Spec == Init /\ [][Next]_vars

(* the calls are well-formed but for the parents of bodies, which the name checker adds *)
Complete == WORLD = "robots" =>
  LET d == ReadIn(in0.doc)  t == Translate(d, in0.rmroot, in0.contfixed, Cfg)
      p == Prepared(d, in0.rmroot, in0.contfixed) IN
  /\ \A i \in 1..Len(t.calls) : \A k \in 1..(i-1) : t.calls[i].n # t.calls[k].n /\ t.calls[i].jn # t.calls[k].jn
  /\ \A i \in 2..Len(t.calls) : \E k \in 1..(i-1) : t.calls[k].n = t.calls[i].pa
  /\ (t.ok /\ t.calls # <<>>) =>
       /\ { t.calls[i].n : i \in 1..Len(t.calls) } = NameSet(LinksOf(p.doc))
       /\ Len(t.calls) = Len(LinksOf(p.doc))
       (* every body has a mass, and together they have that of the robot *)
       /\ LET lp == LinkPoses(p.doc, [n \in NameSet(JointsOf(p.doc)) |-> <<1,0,1,0>>])
              F[i \in 0..Len(t.calls)] == IF i = 0 THEN [k \in 1..10 |-> 0]
                 ELSE IF t.calls[i].c = "frame" THEN F[i-1] ELSE AddSI(F[i-1], MoveSI(lp[t.calls[i].n], t.calls[i].si)) IN
          \/ in0.rmroot
          \/ \E n \in NameSet(JointsOf(d)) : JointNamed(d, n).ty = "floating"   \* its joint value is no longer at rest when fixed
          \/ F[Len(t.calls)] = TotalSI(d, [n \in NameSet(JointsOf(d)) |-> <<1,0,1,0>>])
  (* the chain with a name checker forwards everything, or stops at a body held by a static frame *)
  /\ LET c == PushAll(<<"names">>, StartChain(<<"names">>, Cfg), t.calls, 1, <<>>, {}) IN
     /\ WellFormed(Cfg, c.out)
     /\ ~c.ok => \E i, k \in 1..Len(t.calls) : t.calls[k].c = "frame" /\ t.calls[i].c = "body" /\ t.calls[i].pa = t.calls[k].n
Forwarded == WORLD = "names" => WellFormed(Cfg, fwd) /\ \A i \in 1..Len(fwd) : fwd[i].n \notin in0
(* a request is forwarded iff it is allowed by what has been forwarded so far *)
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([in |-> in0, reqs |-> hist])>>)
=============================================================================
