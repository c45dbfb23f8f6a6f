---------------------------- MODULE FramesTrace ----------------------------
(* Recorded changes of frames, frames on directions, projections on axes.     *)
EXTENDS Frames, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLES h, k, st, ok
vars == <<h, k, st, ok>>
Init == h \in 1..Len(Recs) /\ k = 0 /\ ok = TRUE /\ st = [i \in 1..3 |-> Zero(Recs[h].kind)]
Good(K, op, o, new, frames) ==
  CASE op.op = "orth" -> IF op.u = <<0, 0, 0>> THEN o.r = "throw" ELSE o.r = "ok" /\ BuiltOn(op.u, o.v)
    [] op.op = "proj" -> Projected(IF Len(op.v) = 12 THEN Motion12(op.v, op.d) ELSE MkMotion(op.v, <<0, 0, 0>>, op.d), op.u, op.strict, IF Len(op.v) = 12 THEN 1 ELSE 0, o)
    [] OTHER -> /\ \A i \in 1..3 : Displays(K, new[i], o.regs[i])
                /\ o.kept = 1
Next == /\ ok /\ k < Len(Recs[h].ops)
        /\ LET K == Recs[h].kind
               op == Recs[h].ops[k + 1]
               o == Recs[h].obs[k + 1]
               frames == [i \in 1..Len(Recs[h].frames) |-> Motion12(Recs[h].frames[i].v, Recs[h].frames[i].d)]
               new == IF op.op \in { "load", "ch" } THEN [st EXCEPT ![op.r] = Step(K, op, frames, st)] ELSE st
               good == Good(K, op, o, new, frames) IN
           /\ ok' = good
           /\ IF good THEN TRUE ELSE PrintT(<<"BAD", h, k + 1, op.op \o " " \o K>>)
           /\ st' = new
        /\ k' = k + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
