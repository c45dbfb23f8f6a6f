------------------------------ MODULE FilterMC ------------------------------
(* All histories of a filter: configurations, resets and steps.               *)
EXTENDS Filter, TLC, Json
CONSTANTS DEPTH, EMIT
W == { <<-1, 2>>, QInt(2) }
WSeqs(n) == UNION { [1..k -> W] : k \in 0..n }
Gains == { Q1, QInt(-2), <<1, 2>> }
Xs == { QInt(1), QInt(-3) }
VARIABLES f, in, out, hist, fresh
vars == <<f, in, out, hist, fresh>>
Init == /\ f = Unconfigured /\ in = <<>> /\ out = <<>> /\ hist = <<>> /\ fresh = Unconfigured
DoConfigure(wi, wo, g) ==
  /\ Empty(f)
  /\ f' = Configure(f, wi, wo, g)
  /\ fresh' = Configure(Unconfigured, wi, wo, g)
  /\ in' = <<>> /\ out' = <<>>
  /\ hist' = Append(hist, [op |-> "configure", wi |-> wi, wo |-> wo, g |-> g])
DoReset ==
  /\ f' = Reset(f)
  /\ fresh' = Configure(Unconfigured, f.wi, f.wo, f.g)
  /\ in' = <<>> /\ out' = <<>>
  /\ hist' = Append(hist, [op |-> "reset"])
DoStep(x) ==
  /\ f' = AfterStep(f, x) /\ fresh' = AfterStep(fresh, x)
  /\ in' = Append(in, x) /\ out' = Append(out, Output(f, x))
  /\ hist' = Append(hist, [op |-> "step", x |-> x])
Next == /\ Len(hist) < DEPTH
        /\ \/ \E wi \in WSeqs(2), wo \in WSeqs(1), g \in Gains : Len(hist) <= 1 /\ DoConfigure(wi, wo, g)
           \/ Len(hist) > 0 /\ hist[Len(hist)].op # "reset" /\ DoReset
           \/ \E x \in Xs : DoStep(x)
           \/ Empty(f) /\ Len(hist) > 2 /\ hist[Len(hist)].op = "reset" /\ DoConfigure(<<QInt(2), QInt(-1)>>, <<<<1, 2>>>>, QInt(-2))
Spec == Init /\ [][Next]_vars
(* the machine computes the difference equation of the whole history *)
Computes == in # <<>> => out[Len(out)] = Equation(f, in, SubSeq(out, 1, Len(out) - 1))
(* after a reset it is the machine that was just configured *)
Memoryless == f = fresh
Bounded == Len(f.bi) <= Len(f.wi) /\ Len(f.bo) <= Len(f.wo)
Emitted == (EMIT /\ Len(hist) = DEPTH) => PrintT(<<"H", ToJson([ops |-> hist])>>)
=============================================================================
