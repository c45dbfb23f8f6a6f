------------------------------- MODULE ArcsMC -------------------------------
(* All targets on a grid, several radii and headings: a walk from target to     *)
(* target. The laws: reachable targets have all four straight parts; mirroring   *)
(* and driving the path backwards exchange the turns.                           *)
EXTENDS Arcs, TLC, Json
CONSTANTS DEPTH, EMIT, SPAN, STEP
VARIABLES q, ops
vars == <<q, ops>>
Grid == { STEP * i : i \in (0 - SPAN)..SPAN }
Targets == { [x |-> x, y |-> y, a |-> a, b |-> b, r |-> r, strict |-> 1] : x \in Grid, y \in Grid, a \in {-1, 0, 1}, b \in {0, 1, 2, 3}, r \in {0, 100, 225} }
Init == /\ q \in { t \in Targets : t.r # 0 \/ t.x # 0 \/ t.y # 0 }
        /\ ops = 0
        /\ EMIT => PrintT(<<"H", ToJson([s |-> 256, ops |-> <<q>>])>>)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == q
Swap(s) == IF s = "L" THEN "R" ELSE "L"
Mirrored(t) == [t EXCEPT !.y = 0 - t.y, !.a = 0 - t.a, !.b = 0 - t.b]
(* seen from the target, looking back: the start (lengths times the denominator of the direction) *)
Back(t) == LET d == Dirs(t) IN [x |-> t.x * d.c + t.y * d.s, y |-> t.y * d.c - t.x * d.s, a |-> 0 - t.a, b |-> 0 - t.b, r |-> t.r * d.n, strict |-> 1]
Laws == /\ Fits(q)
        /\ Reachable(q) => \A t \in Turnings : Straight(q, t[1], t[2]) >= 0
        /\ \A t \in Turnings : Straight(Mirrored(q), Swap(t[1]), Swap(t[2])) = Straight(q, t[1], t[2])
        /\ LET w == Back(q) n == Dirs(q).n IN
             /\ Reachable(q) <=> Reachable(w)
             /\ \A t \in Turnings : Straight(w, Swap(t[2]), Swap(t[1])) = n * n * Straight(q, t[1], t[2])
        \* straight ahead needs no turn
        /\ (q.y = 0 /\ q.x > 0 /\ q.a = 0 /\ q.b % 4 = 0) => Straight(q, "L", "L") = q.x * q.x
=============================================================================
