------------------------------ MODULE MapFrame ------------------------------
(* A square occupancy map: its side in pixels, the metric size of a pixel, the  *)
(* metric position of pixel (0, 0) and the obstacle threshold. Metric numbers   *)
(* are integers in some unit (twice as fine as a pixel, so halves are exact).   *)
EXTENDS Integers, Sequences
MMul(a, b) == a * b
MAbs(a) == IF a < 0 THEN 0 - a ELSE a
(* the offset of the origin when the metric point c is in the middle of the map *)
Origin(size, res, c) == <<c[1] - (MMul(size, res) \div 2), c[2] + (MMul(size, res) \div 2)>>
New(size, res, c, t) == [size |-> size, res |-> res, off |-> Origin(size, res, c), t |-> t]
(* from pixels to metres: the vertical axis of the image points downwards *)
ToMetric(m, p) == <<MMul(p[1], m.res) + m.off[1], m.off[2] - MMul(p[2], m.res)>>
Images(m, d) == <<d[1] - m.off[1], m.off[2] - d[2]>>
(* p is (one of) the pixel coordinates nearest to d: of two, the one farther from the origin *)
Nearest(p, d, res) == 2 * MAbs(MMul(p, res) - d) <= res
Away(p, d, res) == Nearest(p, d, res) /\ (2 * MAbs(MMul(p, res) - d) = res => MAbs(p) * res > MAbs(d))
NearestTo(d, res) == IF d >= 0 THEN (2 * d + res) \div (2 * res) ELSE 0 - ((res - 2 * d) \div (2 * res))
ToPixel(m, d) == LET i == Images(m, d) IN <<NearestTo(i[1], m.res), NearestTo(i[2], m.res)>>
DeltaPixel(m, d) == <<NearestTo(d[1], m.res), NearestTo(0 - d[2], m.res)>>
Step(op, m) ==
  CASE op.op = "new" -> New(op.size, op.res, op.c, op.t)
    [] op.op = "center" -> [m EXCEPT !.off = Origin(m.size, m.res, op.c)]
    [] op.op = "origin" -> [m EXCEPT !.off = op.c]
    [] op.op = "res" -> [m EXCEPT !.res = op.res]
    [] op.op = "size" -> [m EXCEPT !.size = op.size]
    [] OTHER -> m
=============================================================================
