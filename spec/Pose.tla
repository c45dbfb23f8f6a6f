-------------------------------- MODULE Pose --------------------------------
(* Poses of the robot description: the rigid motion a pair of translation and *)
(* roll-pitch-yaw denotes, composition and inversion, and the text form.      *)
(* A register holds [kn |-> is the motion known, m |-> the motion,            *)
(* xb, rb |-> the six numbers, each as four 16-bit words, lowest first].      *)
EXTENDS Rat
Q == INSTANCE Q

(* ------------------------------------------------------------ numbers *)
IsZeroW(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] \in { 0, 32768 }
NegW(w) == [w EXCEPT ![4] = IF @ >= 32768 THEN @ - 32768 ELSE @ + 32768]
SameNum(a, b) == a = b \/ (IsZeroW(a) /\ IsZeroW(b))
SameNums(s, t) == \A i \in 1..3 : SameNum(s[i], t[i])
IsZero3(s) == \A i \in 1..3 : IsZeroW(s[i])
W0 == <<0, 0, 0, 0>>
Zero3 == <<W0, W0, W0>>

(* ---------------------------------------------------------- the motion *)
Known(m) == [kn |-> TRUE, m |-> m]
Unknown == [kn |-> FALSE, m |-> IdMotion]
(* angles are <<cosine, sine, denominator>> *)
MotionOf(xyz, d, rpy) == Compose(MkMotion(VScale(d, I9), xyz, d), Rpy(rpy[1], rpy[2], rpy[3]))
(* observed: twelve integers over D *)
Denotes(obs, m, D) == /\ D % m.d = 0
                      /\ \A k \in 1..9 : obs[k] = m.m[k] * (D \div m.d)
                      /\ \A k \in 1..3 : obs[9 + k] = m.t[k] * (D \div m.d)

Product(a, b) == IF a.kn /\ b.kn THEN Known(Compose(a.m, b.m)) ELSE Unknown
Inverted(a) == IF a.kn THEN Known(Inverse(a.m)) ELSE Unknown

(* numbers of the result that are not allowed to be rounded *)
ProductNumbers(a, b, res) ==
  /\ IsZero3(a.rb) => SameNums(res.rb, b.rb)
  /\ IsZero3(b.rb) => SameNums(res.rb, a.rb)
InverseNumbers(a, res) ==
  IsZero3(a.rb) => /\ IsZero3(res.rb)
                   /\ \A i \in 1..3 : SameNum(res.xb[i], NegW(a.xb[i]))
(* written and read back *)
TripTriple(s, res) == IF IsZero3(s) THEN IsZero3(res) ELSE res = s
TripNumbers(a, res) == TripTriple(a.xb, res.xb) /\ TripTriple(a.rb, res.rb)
WrittenAsAbsent(a) == IsZero3(a.xb) /\ IsZero3(a.rb)
EqualPoses(a, b) == SameNums(a.xb, b.xb) /\ SameNums(a.rb, b.rb)

(* ------------------------------------------------------------ the text *)
(* text is a sequence of one-character strings *)
Blank == { " ", "\t", "\n", "\f", "\r", "VT" }
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* end of the run of digits starting at k *)
RECURSIVE Run(_, _)
Run(t, k) == IF k <= Len(t) /\ IsDigit(t[k]) THEN Run(t, k + 1) ELSE k
RECURSIVE Nat10(_, _, _, _)
Nat10(t, i, j, acc) == IF i >= j THEN acc ELSE Nat10(t, i + 1, j, 10 * acc + DigitOf(t[i]))
At(t, k, S) == k <= Len(t) /\ t[k] \in S
NaN == [ok |-> FALSE, v |-> <<0, 1>>]
(* sign? digits? [. digits?] [e sign? digits], at least one digit before e *)
Number(t) ==
  LET i0 == IF At(t, 1, {"+", "-"}) THEN 2 ELSE 1
      i1 == Run(t, i0)
      dot == At(t, i1, {"."})
      f0 == IF dot THEN i1 + 1 ELSE i1
      f1 == IF dot THEN Run(t, f0) ELSE i1
      nd == (i1 - i0) + (f1 - f0)
      ex == At(t, f1, {"e", "E"})
      x0 == IF ex /\ At(t, f1 + 1, {"+", "-"}) THEN f1 + 2 ELSE f1 + 1
      x1 == IF ex THEN Run(t, x0) ELSE f1 IN
  IF nd = 0 \/ (ex /\ x1 = x0) \/ x1 # Len(t) + 1 THEN NaN
  ELSE LET man == Nat10(t, f0, f1, Nat10(t, i0, i1, 0))
           s == IF At(t, 1, {"-"}) THEN -1 ELSE 1
           e == (IF ex THEN (IF At(t, f1 + 1, {"-"}) THEN -1 ELSE 1) * Nat10(t, x0, x1, 0) ELSE 0) - (f1 - f0) IN
       [ok |-> TRUE, v |-> IF e >= 0 THEN Q!Q(s * man * Pow10(e), 1) ELSE Q!Q(s * man, Pow10(-e))]
RECURSIVE Tokens(_, _, _, _)
Tokens(t, k, cur, acc) ==
  IF k > Len(t) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF t[k] \in Blank THEN Tokens(t, k + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE Tokens(t, k + 1, Append(cur, t[k]), acc)
Triple(t) == LET w == Tokens(t, 1, <<>>, <<>>) n == [i \in 1..Len(w) |-> Number(w[i])] IN
  IF Len(w) = 3 /\ n[1].ok /\ n[2].ok /\ n[3].ok THEN [ok |-> TRUE, v |-> <<n[1].v, n[2].v, n[3].v>>]
  ELSE [ok |-> FALSE, v |-> <<Q!Q0, Q!Q0, Q!Q0>>]
(* an attribute: <<>> when absent, otherwise <<text>> *)
Attribute(a) == IF a = <<>> THEN [ok |-> TRUE, v |-> <<Q!Q0, Q!Q0, Q!Q0>>] ELSE Triple(a[1])
=============================================================================
