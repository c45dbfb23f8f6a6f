---------------------------- MODULE ConversionsMC ----------------------------
(* Every walk of DEPTH conversions from the motions of a small world that     *)
(* contains the half-turns and the gimbal locks.                              *)
EXTENDS Conversions, TLC, Json
CONSTANTS DEPTH, EMIT
VARIABLES rep, mo, exact, ops
vars == <<rep, mo, exact, ops>>
W(a, b) == <<a, b>>
Makes ==
  { [op |-> "make", f |-> "S", t |-> <<1, -2, 3>>, e |-> 2, w |-> w] : w \in { <<W(0,0), W(0,1), W(1,0)>>, <<W(1,0), W(0,-1), W(0,2)>>, <<W(0,2), W(0,0), W(0,0)>>,
        <<W(0,0), W(0,2), W(0,0)>>, <<W(1,0), W(1,0), W(-1,0)>> } }
  \cup { [op |-> "make", f |-> "P", t |-> <<-3, 2>>, e |-> 1, w |-> <<w>>] : w \in { W(0,2), W(1,1), W(0,0) } }
  \cup { [op |-> "make", f |-> "Q", v |-> v, d |-> 1] : v \in { <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>, <<1,0,0,0>>, <<-1,0,0,0>> } }
  \cup { [op |-> "make", f |-> "Q", v |-> <<0,3,0,4>>, d |-> 5], [op |-> "make", f |-> "Q", v |-> <<1,1,-1,1>>, d |-> 2] }
Init == \E x \in Makes : rep = MadeRep(x.f) /\ mo = Made(x) /\ exact = TRUE /\ ops = <<x>>
Next == /\ Len(ops) <= DEPTH /\ exact
        /\ \E f \in DOMAIN Table : /\ Table[f][1] = rep
                                   /\ rep' = Table[f][2] /\ mo' = Reduced(Table[f][2], mo) /\ exact' = Exact(Table[f][2], mo)
                                   /\ ops' = Append(ops, [op |-> "to", f |-> f, to |-> Table[f][2]])
Spec == Init /\ [][Next]_vars
(* whatever the walk, the state is a rigid motion, and what a representation  *)
(* can not show is absent                                                     *)
Rigid == exact => IsRotationM(mo.m, mo.d)
Absent == exact => mo = Reduced(rep, mo)
(* only a smaller representation loses something *)
Kept == [][Table[ops'[Len(ops')].f][2] \in { "T", "S", "D" } => SameMotion(mo', mo)]_vars
Emitted == (EMIT /\ Len(ops) = DEPTH + 1) => PrintT(<<"H", ToJson([ops |-> ops])>>)
=============================================================================
