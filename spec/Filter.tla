------------------------------- MODULE Filter -------------------------------
(* The digital filter: a bounded-memory machine, and what it must compute.    *)
EXTENDS Q

(* A filter: weights (the last one applies to the most recent sample), static *)
(* gain, and the samples it remembers, oldest first.                          *)
Unconfigured == [wi |-> <<Q1>>, wo |-> <<>>, g |-> Q1, bi |-> <<>>, bo |-> <<>>]
Configure(f, wi, wo, g) == [f EXCEPT !.wi = wi, !.wo = wo, !.g = g]
Reset(f) == [f EXCEPT !.bi = <<>>, !.bo = <<>>]
Keep(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Weighted(s, w) == QSum([k \in 1..Len(w) |-> QMul(s[k], w[k])])
Output(f, x) ==
  LET b == Keep(Append(f.bi, QDiv(x, f.g)), Len(f.wi)) IN
  IF Len(b) = Len(f.wi) /\ Len(f.bo) = Len(f.wo) THEN QAdd(Weighted(b, f.wi), Weighted(f.bo, f.wo)) ELSE x
AfterStep(f, x) ==
  [f EXCEPT !.bi = Keep(Append(f.bi, QDiv(x, f.g)), Len(f.wi)), !.bo = Keep(Append(f.bo, Output(f, x)), Len(f.wo))]
Empty(f) == f.bi = <<>> /\ f.bo = <<>>

(* The difference equation, over everything given (in) and answered (out)     *)
(* since the last reset; out is one shorter than in.                          *)
Equation(f, in, out) ==
  LET n == Len(in) IN
  IF n < Len(f.wi) \/ n - 1 < Len(f.wo) THEN in[n]
  ELSE QAdd(QSum([k \in 1..Len(f.wi) |-> QMul(QDiv(in[n - Len(f.wi) + k], f.g), f.wi[k])]),
            QSum([k \in 1..Len(f.wo) |-> QMul(out[n - 1 - Len(f.wo) + k], f.wo[k])]))
=============================================================================
