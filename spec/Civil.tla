------------------------------- MODULE Civil -------------------------------
(* C33: the proleptic Gregorian calendar as a clock.  A civil time is          *)
(* <<year, month, day, weekday, hour, minute, second>>; Tick is the next one.  *)
EXTENDS Bytes
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
NextDay(d) == (* d = <<year, month, day, weekday>> *)
  LET w == (d[4] + 1) % 7 IN
  IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1, w>>
  ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1, w>> ELSE <<d[1] + 1, 1, 1, w>>
Tick(c) ==
  IF c[7] < 59 THEN [c EXCEPT ![7] = @ + 1]
  ELSE IF c[6] < 59 THEN [c EXCEPT ![6] = @ + 1, ![7] = 0]
  ELSE IF c[5] < 23 THEN [c EXCEPT ![5] = @ + 1, ![6] = 0, ![7] = 0]
  ELSE NextDay(SubSeq(c, 1, 4)) \o <<0, 0, 0>>
Epoch == <<1970, 1, 1, 4>>
(* days since 1970-01-01, by counting whole years and months; 400 years = 146097 days *)
DaysBeforeYear(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DaysBeforeMonth(y, m) == FoldLeft(LAMBDA n, k : n + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k])
DayNumber(y, m, d) == (DaysBeforeYear(y) - DaysBeforeYear(1970)) + DaysBeforeMonth(y, m) + (d - 1)
Valid(d) == d[2] \in 1..12 /\ d[3] \in 1..MonthLen(d[1], d[2]) /\ d[4] \in 0..6
(* d is the civil day numbered q * 146097 + r with 0 <= r < 146097 *)
IsDay(d, q, r) == LET y == d[1] - (400 * q) IN
                  /\ Valid(d) /\ y \in 1970..2370
                  /\ DayNumber(y, d[2], d[3]) = r
                  /\ d[4] = (4 + r) % 7               \* 146097 days are whole weeks
=============================================================================
