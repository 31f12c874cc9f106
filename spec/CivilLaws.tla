---------------------------- MODULE CivilLaws ----------------------------
(* The clock and the day numbering agree over a whole 400-year cycle, and     *)
(* from one cycle to the next.                                                 *)
EXTENDS Civil
VARIABLES d, n
Init == d = Epoch /\ n = 0
Next == n < 146097 /\ d' = NextDay(d) /\ n' = n + 1
Spec == Init /\ [][Next]_<<d, n>>
Agree == IF n < 146097 THEN IsDay(d, 0, n) ELSE IsDay(d, 1, 0)
TickDay == Tick(d \o <<23, 59, 59>>) = NextDay(d) \o <<0, 0, 0>> /\ Tick(d \o <<0, 59, 59>>) = d \o <<1, 0, 0>>
=============================================================================
