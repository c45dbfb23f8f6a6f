---------------------------- MODULE QianimFields ----------------------------
(* Reading and writing single fields, and validation of whole documents.      *)
EXTENDS Qianim, TLC, Json
CONSTANT TRACE
Recs == ndJsonDeserialize(TRACE)
VARIABLE h
RECURSIVE Read(_)
Read(j) == El(j.k, { <<j.at[i][1], j.at[i][2], j.at[i][3]>> : i \in 1..Len(j.at) }, j.d, [i \in 1..Len(j.ch) |-> Read(j.ch[i])])

IntFields == {"frame", "fps"}
(* written value, then what reading returns: same words; refused: nothing changed *)
Refused(r) == (r.field = "frame" /\ r.i < 0) \/ (r.field = "fps" /\ r.i <= 0)
WriteOk(r) ==
  IF r.field \in IntFields
  THEN IF Refused(r) THEN r.put = "throw" /\ r.same
       ELSE r.put = "ok" /\ r.get = "ok" /\ r.goti = r.i
  ELSE r.put = "ok" /\ r.get = "ok" /\ r.gotw = r.w        \* bits of a double or float, or text
(* reading what the document holds *)
ReadOk(r) ==
  CASE r.field = "frame" -> IF r.num /\ r.i >= 0 THEN r.get = "ok" /\ r.goti = r.i ELSE r.get = "throw"
    [] r.field = "fps" -> IF r.num /\ r.i > 0 THEN r.get = "ok" /\ r.goti = r.i ELSE r.get = "throw"
    [] r.field = "unit" -> IF r.text \in Units THEN r.get = "ok" /\ r.gotw = <<r.text>> ELSE r.get = "throw"
    [] r.field = "side" -> IF r.text \in Sides THEN r.get = "ok" /\ r.gotw = <<r.text>> ELSE r.get = "throw"
    [] r.field = "mute" -> r.get = "ok" /\ r.gotw = << (IF r.text = "true" THEN "true" ELSE "false") >>
    [] r.field = "actuator" -> IF r.present THEN r.get = "ok" /\ r.gotw = <<r.text>> ELSE r.get = "throw"
    [] r.field = "version" -> IF r.text = "2.0" THEN r.get = "ok" ELSE r.get = "throw"
    [] r.field \in {"value", "abscissa", "ordinate"} -> IF r.num THEN r.get = "ok" ELSE r.get = "throw"
St(b) == IF b THEN "ok" ELSE "throw"
CheckOk(r) ==
  LET a == Read(r.doc) cs == Child(a, "ActuatorCurve") IN
  /\ r.all = St(AnimationOk(a))
  /\ r.version = St(GoodVersion(a))
  /\ Len(r.curves) = Cardinality(cs)
  /\ \A i \in 1..Len(r.curves) : LET w == St(CurveOk(a.ch[Ordered(cs)[i]])) IN r.curves[i] = <<w, w>>
  /\ Len(r.arcs) = Len(r.curves)
  /\ \A i \in 1..Len(r.curves) : LET c == a.ch[Ordered(cs)[i]] IN CurveOk(c) => r.arcs[i] = Arcs(c)
Ok(r) == CASE r.what = "write" -> WriteOk(r) [] r.what = "read" -> ReadOk(r) [] r.what = "check" -> CheckOk(r)
Init == h = 0
Next == /\ h < Len(Recs) /\ h' = h + 1
        /\ IF Ok(Recs[h + 1]) THEN TRUE ELSE PrintT(<<"BAD", h + 1, 0, Recs[h + 1].what>>)
Spec == Init /\ [][Next]_h
ASSUME PrintT(<<"JUDGED", Len(Recs)>>)
=============================================================================
