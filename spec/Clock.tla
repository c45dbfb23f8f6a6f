-------------------------------- MODULE Clock --------------------------------
(* Durations (signed 64-bit nanoseconds) and ROS times (unsigned 32-bit seconds  *)
(* and nanoseconds). A count of nanoseconds is <<a, b, c>>, standing for         *)
(* a * 10^18 + b * 10^9 + c with 0 <= b, c < 10^9; a ROS time is a count, too.   *)
(* A machine over one duration and one ROS time: a duration is set, advanced,    *)
(* turned into a ROS time and back.                                            *)
EXTENDS Integers, Sequences
G == 1000000000
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
RosMin == <<0, 0, 1>>
RosMax == <<4, 294967295, 999999999>>
QiMin == <<-10, 776627963, 145224192>>
QiMax == <<9, 223372036, 854775807>>
ToRos(q) == IF Less(q, RosMin) THEN RosMin ELSE IF Less(RosMax, q) THEN RosMax ELSE q
ToQi(r) == r
Plus(x, y) == LET c == x[3] + y[3] b == x[2] + y[2] + (c \div G) IN << x[1] + y[1] + (b \div G), b % G, c % G >>
Fits(q) == ~Less(q, QiMin) /\ ~Less(QiMax, q)
=============================================================================
