------------------------------ MODULE PoseTrace ------------------------------
(* Recorded programs over pose registers, and recorded readings of texts.      *)
EXTENDS Pose, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Ident == [kn |-> TRUE, m |-> IdMotion, xb |-> Zero3, rb |-> Zero3]
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = [i \in 1..3 |-> Ident]

Meaning(op) ==
  CASE op.op = "load" -> Known(MotionOf(op.xyz, op.d, op.rpy))
    [] op.op = "raw"  -> Unknown
    [] op.op = "mul"  -> Product(st[op.a], st[op.b])
    [] op.op = "inv"  -> Inverted(st[op.a])
    [] op.op = "trip" -> [kn |-> st[op.a].kn, m |-> st[op.a].m]
    [] op.op = "eq"   -> [kn |-> st[op.r].kn, m |-> st[op.r].m]
Numbers(op, o) ==
  CASE op.op = "load" -> TRUE
    [] op.op = "raw"  -> o.xb = op.xb /\ o.rb = op.rb
    [] op.op = "mul"  -> ProductNumbers(st[op.a], st[op.b], o)
    [] op.op = "inv"  -> InverseNumbers(st[op.a], o)
    [] op.op = "trip" -> /\ TripNumbers(st[op.a], o)
                         /\ o.absent = WrittenAsAbsent(st[op.a])
                         /\ o.isid = WrittenAsAbsent(st[op.a])
    [] op.op = "eq"   -> /\ o.eq = EqualPoses(st[op.a], st[op.b])
                         /\ o.ne = ~EqualPoses(st[op.a], st[op.b])
                         /\ o.xb = st[op.r].xb /\ o.rb = st[op.r].rb
(* a reading of one or two attributes *)
OnGrid3(v, g, D) == \A i \in 1..3 : Q!QOnGrid(v[i], g[i], D)
Reads(op, o) ==
  LET x == Attribute(op.xyz) y == Attribute(op.rpy) IN
  /\ o.r = (IF x.ok /\ y.ok THEN "ok" ELSE "throw")
  /\ o.r = "ok" => OnGrid3(x.v, o.x, op.D) /\ OnGrid3(y.v, o.y, op.D)
  /\ op.xyz # <<>> => /\ o.some = x.ok
                      /\ o.some => OnGrid3(x.v, o.tx, op.D)
(* any three numbers, zeros and their signs included *)
Vector(op, o) == o.some /\ o.v = op.v

Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               one == op.op \in { "text", "vec" }
               me == IF one THEN Unknown ELSE Meaning(op)
               mo == IF one \/ ~me.kn THEN TRUE ELSE Denotes(o.own, me.m, Recs[h].D) /\ Denotes(o.lib, me.m, Recs[h].D)
               nu == CASE op.op = "text" -> Reads(op, o)
                       [] op.op = "vec"  -> Vector(op, o)
                       [] OTHER          -> Numbers(op, o) IN
           /\ ok' = (mo /\ nu)
           /\ IF mo THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " motion">>)
           /\ IF nu THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " numbers">>)
           /\ st' = IF one THEN st ELSE [st EXCEPT ![op.r] = [kn |-> me.kn, m |-> me.m, xb |-> o.xb, rb |-> o.rb]]
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
