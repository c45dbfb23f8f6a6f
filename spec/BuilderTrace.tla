---------------------------- MODULE BuilderTrace ----------------------------
(* Translations of robots and histories of requests recorded from the real    *)
(* builders against module Builder.  One state per record.                    *)
EXTENDS Builder, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, done
vars == <<h, done>>
El(e) == IF e.k = "inertial" THEN [k |-> e.k, p |-> Motion12(e.p, 625), si |-> e.si] ELSE [k |-> e.k, p |-> Motion12(e.p, 625)]
Elem(e) == CASE e.k = "link" -> [k |-> "link", n |-> e.n, els |-> [i \in 1..Len(e.els) |-> El(e.els[i])]]
             [] e.k = "joint" -> [k |-> "joint", n |-> e.n, pa |-> e.pa, ch |-> e.ch, ty |-> e.ty,
                                  p |-> Motion12(e.p, 625), ax |-> e.ax, mi |-> e.mi]
             [] OTHER -> [k |-> e.k, n |-> e.n]
Read(raw) == [i \in 1..Len(raw) |-> Elem(raw[i])]
(* a recorded request, or one the specification makes *)
Same(x, y) == \* x: specification, y: recorded
  /\ x.c = y.c /\ x.pa = y.pa /\ x.n = y.n /\ x.jn = y.jn /\ y.g
  /\ SameMotion(x.p, Motion12(y.p, 625))
  /\ x.c = "body" => x.ty = y.ty /\ x.si = y.si
SameAll(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Same(xs[i], ys[i])
Prefix(ys, xs) == Len(ys) <= Len(xs) /\ \A i \in 1..Len(ys) : Same(xs[i], ys[i])
SetOf(s) == { s[i] : i \in 1..Len(s) }

RobotOk(r) ==
  LET t == Translate(Read(r.doc), r.rmroot, r.contfixed, r.cfg)
      c == PushAll(r.chain, StartChain(r.chain, r.cfg), t.calls, 1, <<>>, {}) IN
  /\ r.ok = (t.ok /\ c.ok)
  /\ r.ok => SameAll(c.out, r.calls)
  (* an exception: what had been requested so far was right *)
  /\ ~r.ok => Prefix(r.calls, c.out)

ReqOf(cfg, q) ==
  LET jn == IF q.named THEN q.jn ELSE JointName(cfg, q.n)
      p == Motion12(q.p, 625) IN
  IF q.c = "body" THEN Body(q.pa, q.n, jn, p, q.ty, q.si) ELSE Frame(q.pa, q.n, jn, p)
(* static frames asked for through the convenience form are dropped when they are not wanted *)
Dropped(cfg, q) == q.c = "frame" /\ q.conv /\ cfg.nosf
RECURSIVE Hist(_, _, _, _)
Hist(r, i, st, acc) ==
  IF i > Len(r.reqs) THEN SameAll(acc, r.calls)
  ELSE LET q == r.reqs[i] IN
       IF Dropped(r.cfg, q) THEN r.res[i] /\ Hist(r, i + 1, st, acc)
       ELSE LET a == Push(r.chain, 1, st, ReqOf(r.cfg, q), SetOf(r.refuse)) IN
            r.res[i] = a.ok /\ Hist(r, i + 1, a.st, acc \o a.out)
Good(r) == IF r.kind = "robot" THEN RobotOk(r) ELSE Hist(r, 1, StartChain(r.chain, r.cfg), <<>>)
Init == h \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ IF Good(Recs[h]) THEN TRUE ELSE PrintT(<<"BAD", h, 0, Recs[h].kind>>)
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
