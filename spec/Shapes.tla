------------------------------- MODULE Shapes -------------------------------
(* Solids, what a visitor is told about them, and the placement of the pill   *)
(* that spans two points.                                                     *)
EXTENDS Rat
Kinds == { "sphere", "roundedrectangle", "pill", "plane", "halfspace", "rectangle", "halfline" }
Dims(kind) == CASE kind = "sphere" -> 1 [] kind = "roundedrectangle" -> 3 [] kind = "pill" -> 2
                [] kind = "rectangle" -> 2 [] OTHER -> 0
(* a visitor: what it does for a kind ("tell" or "refuse"), and its message *)
Visit(v, s) == IF v.own = "all" \/ v.own = s.kind
               THEN [r |-> "ok", calls |-> <<[kind |-> s.kind, dims |-> s.dims]>>, msg |-> ""]
               ELSE [r |-> "throw", calls |-> <<>>, msg |-> IF v.msg = "" THEN "not implemented" ELSE v.msg]

(* ------------------------------------------------------------- pills *)
(* Two different points a and b (integers over e). Observed: matrix g (over G), *)
(* centre c and ends pa, pb (over C), half length hl (over C), all rounded.     *)
Near(x, y, t) == Abs(x - y) <= t
Orthonormal(g, G, t) == LET p == MMul(MTr(g), g) IN
  \A i \in 1..9 : Near(p[i], G * G * I9[i], t)
Col(g, k) == << g[k], g[3 + k], g[6 + k] >>
RightHanded(g, G, t) == LET z == Cross(Col(g, 1), Col(g, 2)) IN \A i \in 1..3 : Near(z[i], G * g[3 * i], t)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)
(* z is the direction of d, to within one part in G *)
Along(z, G, d) ==
  LET m == Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3]))) IN
  /\ Dot(z, d) > 0
  /\ \A i \in 1..3 : Abs(Cross(z, d)[i]) <= 3 * m
HalfLengthOf(hl, C, d, e) ==   \* hl / C = |d| / (2 e)
  LET s == Dot(d, d)
      f == IF s < 5000000 THEN 20 ELSE 1
      n == ISqrt(s * f * f)      \* f |d| in [n, n + 1)
      x == 2 * e * hl IN
  /\ x >= (C \div f) * n - 2 * e - 1
  /\ x <= (C \div f) * (IF n * n = s * f * f THEN n ELSE n + 1) + 2 * e + 1
IsPill(a, b, e, o) ==
  LET d == VSub(b, a) IN
  /\ Orthonormal(o.g, o.G, 3 * o.G)
  /\ RightHanded(o.g, o.G, 3 * o.G)
  /\ Along(Col(o.g, 3), o.G, d)
  /\ HalfLengthOf(o.hl, o.C, d, e)
  /\ \A i \in 1..3 : Near(2 * e * o.c[i], o.C * (a[i] + b[i]), 2 * e)
  (* computed back: the two given points *)
  /\ \/ /\ \A i \in 1..3 : Near(e * o.pa[i], o.C * b[i], 2 * e)
        /\ \A i \in 1..3 : Near(e * o.pb[i], o.C * a[i], 2 * e)
     \/ /\ \A i \in 1..3 : Near(e * o.pa[i], o.C * a[i], 2 * e)
        /\ \A i \in 1..3 : Near(e * o.pb[i], o.C * b[i], 2 * e)
=============================================================================
