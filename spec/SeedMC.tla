------------------------------- MODULE SeedMC -------------------------------
(* Initialisations and draws in any order, the device failing at will: the     *)
(* sequence changes at most once, exactly when the first success is reported.  *)
EXTENDS Seed
CONSTANTS MaxOps
VARIABLES seeded, stream, pos, said, changes, n
vars == <<seeded, stream, pos, said, changes, n>>
Init == seeded = FALSE /\ stream = 0 /\ pos = 0 /\ said = <<>> /\ changes = 0 /\ n = 0
Call(can) == \E o \in Outcomes(seeded, can), s \in 1..3 :
  /\ seeded' = o[2] /\ said' = Append(said, o[1])
  /\ stream' = IF o[3] THEN s ELSE stream
  /\ pos' = IF o[3] THEN 0 ELSE pos
  /\ changes' = IF o[3] THEN changes + 1 ELSE changes
Draw == pos' = pos + 1 /\ UNCHANGED <<seeded, stream, said, changes>>
Next == n < MaxOps /\ n' = n + 1 /\ (Draw \/ \E can \in BOOLEAN : Call(can))
Spec == Init /\ [][Next]_vars
Laws == /\ changes = (IF seeded THEN 1 ELSE 0) /\ (stream # 0) = seeded
        /\ \A i, j \in 1..Len(said) : i < j /\ said[i] = 0 => said[j] = 0
        /\ seeded = (\E i \in 1..Len(said) : said[i] = 0)
=============================================================================
