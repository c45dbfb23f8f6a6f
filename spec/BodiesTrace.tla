---------------------------- MODULE BodiesTrace ----------------------------
(* Recorded programs on bodies. The state is the matter in each register and    *)
(* the accumulated inertia.                                                    *)
EXTENDS Bodies, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, regs, acc, ok
vars == <<h, k, regs, acc, ok>>
None == [M |-> 0]
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ regs = [i \in 1..4 |-> None] /\ acc = VScale(0, I9)
(* o shows the body b: com over M, basis over d, inertia over Scale *)
ShowsBody(D, b, o) == /\ o.M = b.M
                      /\ o.c = b.h
                      /\ o.R = VScale(o.d \div b.r.d, b.r.m) /\ o.d % b.r.d = 0
                      /\ o.K = Scale(D, b) /\ o.I = OwnInertia(D, b)
Of(D, op) == Body(D, op.m, Full9(op.I), Placement(op.rpy, op.t))
(* as read from a document: in the basis of the parent *)
Read(D, op) == LET b == Of(D, op) IN [b EXCEPT !.r = IdMotion]
After(D, op) ==
  CASE op.op = "place" -> [regs EXCEPT ![op.r] = Of(D, op)]
    [] op.op = "read" -> [regs EXCEPT ![op.r] = Read(D, op)]
    [] op.op = "squash" -> [regs EXCEPT ![op.c] = Combine(regs[op.a], regs[op.b])]
    [] OTHER -> regs
AccAfter(op) ==
  CASE op.op = "acc" -> Full9(op.I)
    [] op.op = "add" -> VAdd(acc, PointInertia(op.m, op.p))
    [] OTHER -> acc
Good(D, op, o) ==
  CASE op.op = "place" -> TRUE
    [] op.op = "read" -> ShowsBody(D, After(D, op)[op.r], o)
    [] op.op = "squash" -> ShowsBody(D, After(D, op)[op.c], o) /\ o.same = 1
    [] op.op = "acc" -> TRUE
    [] op.op = "add" -> o.I = AccAfter(op)
    [] op.op = "point" -> o.I = PointInertia(op.m, op.p)
    [] op.op = "rpy" -> LET m == Rpy(op.rpy[1], op.rpy[2], op.rpy[3]) e == o.d \div m.d IN
                         /\ o.d % m.d = 0
                         /\ o.quat = VScale(e, m.m)      \* of the quaternion
                         /\ o.pose = VScale(e, m.m) /\ o.t = op.t    \* of the pose
                         /\ o.back = VScale(e, m.m)      \* of the angles read back from the matrix
    [] OTHER -> FALSE
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               good == Good(Recs[h].D, op, o) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ regs' = After(Recs[h].D, op)
           /\ acc' = AccAfter(op)
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
