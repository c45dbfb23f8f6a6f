------------------------------ MODULE DspTrace ------------------------------
(* Recorded histories of filters and controllers. A history drives several    *)
(* objects (slots); op copy makes slot s a copy of slot o.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT TRACE
F == INSTANCE Filter
P == INSTANCE Pid
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Pair(x) == F!Q(x[1], x[2])
Ps(s) == [i \in 1..Len(s) |-> Pair(s[i])]
Params(p) == [a \in DOMAIN p |-> Pair(p[a])]
(* [s |-> slot afterwards, r, y] *)
FilterCall(f, op) ==
  CASE op.op = "configure" -> [s |-> F!Configure(f, Ps(op.wi), Ps(op.wo), Pair(op.g)), r |-> "ok", y |-> F!Q0]
    [] op.op = "reset"     -> [s |-> F!Reset(f), r |-> "ok", y |-> F!Q0]
    [] op.op = "step"      -> [s |-> F!AfterStep(f, Pair(op.x)), r |-> "ok", y |-> F!Output(f, Pair(op.x))]
    [] op.op = "new"       -> [s |-> F!Unconfigured, r |-> "ok", y |-> F!Q0]
Arg(op) == [a \in DOMAIN op |-> IF a \in { "op", "s" } THEN op[a] ELSE IF a = "p" THEN Params(op[a]) ELSE Pair(op[a])]
PidCall(c, op) == LET a == P!Call(c, Arg(op)) IN [s |-> a.c, r |-> a.r, y |-> a.y]
Initial(kind) == IF kind = "filter" THEN F!Unconfigured ELSE P!Default
Call(kind, slots, op) ==
  IF op.op = "copy" THEN [s |-> slots[op.o], r |-> "ok", y |-> F!Q0]
  ELSE IF kind = "filter" THEN FilterCall(slots[op.s], op) ELSE PidCall(slots[op.s], op)
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = [i \in 1..2 |-> Initial(Recs[h].kind)]
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET op == Recs[h].ops[k + 1]
               a == Call(Recs[h].kind, st, op)
               res == Recs[h].res[k + 1]
               good == /\ res.r = a.r
                       /\ op.op \in { "step", "fb", "fba" } => F!QOnGrid(a.y, res.y, Recs[h].D) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op>>)
           /\ st' = [st EXCEPT ![op.s] = a.s]
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
