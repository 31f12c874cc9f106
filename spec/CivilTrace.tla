---------------------------- MODULE CivilTrace ----------------------------
EXTENDS CallTrace
C == INSTANCE Civil
Day(c) == SubSeq(c, 1, 4)
(* "days": consecutive days from q * 146097 + r at second sec of the day;      *)
(* "secs": consecutive seconds, crossing at least the given instant            *)
CallOK(e) ==
  CASE e.f = "days" -> /\ C!IsDay(Day(e.c[1]), e.q, e.r)
                       /\ \A i \in 1..Len(e.c) : SubSeq(e.c[i], 5, 7) = <<e.sec \div 3600, (e.sec \div 60) % 60, e.sec % 60>>
                       /\ \A i \in 1..(Len(e.c) - 1) : Day(e.c[i + 1]) = C!NextDay(Day(e.c[i]))
    [] e.f = "secs" -> /\ C!IsDay(Day(e.c[1]), e.q, e.r)
                       /\ SubSeq(e.c[1], 5, 7) = <<e.sec \div 3600, (e.sec \div 60) % 60, e.sec % 60>>
                       /\ \A i \in 1..(Len(e.c) - 1) : e.c[i + 1] = C!Tick(e.c[i])
    (* a sleep nobody interrupts: no shorter than asked; another 10 s are left to a busy machine *)
    [] e.f = "sleep" -> e.r = 0 /\ e.us >= e.ms * 1000 /\ e.us <= (e.ms * 1000) + 10000000
    [] OTHER -> FALSE
Ok == CallOK(Trace[t])
=============================================================================
