------------------------------ MODULE LoggerMC ------------------------------
(* Threads write lines in pieces to descriptor 2 under the stream's lock while *)
(* others rotate: open the new file, then under the same lock move it onto     *)
(* descriptor 2.  Opening and moving can fail.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Loggers, Rotors, Files, Pieces, Lines, Turns
VARIABLES fd2, level, text,   \* text[f]: pieces <<thread, line, piece>> in order
          lock, pc, part, line, new, want, turns, shown, res
vars == <<fd2, level, text, lock, pc, part, line, new, want, turns, shown, res>>
T == Loggers \cup Rotors
Init == /\ fd2 = 1 /\ level = 1 /\ text = [f \in Files |-> <<>>] /\ lock = 0 /\ pc = [t \in T |-> "idle"]
        /\ part = [t \in Loggers |-> 0] /\ line = [t \in Loggers |-> 0] /\ new = [t \in Rotors |-> 0] /\ want = [t \in Rotors |-> 0]
        /\ turns = [t \in Rotors |-> 0] /\ shown = {} /\ res = {}
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
(* a line of severity lv *)
Say(t) == /\ pc[t] = "idle" /\ line[t] < Lines /\ line' = [line EXCEPT ![t] = @ + 1]
          /\ \E lv \in {1, 2} : IF lv <= level THEN Go(t, "lock") /\ shown' = shown \cup {<<t, line'[t]>>} ELSE UNCHANGED <<pc, shown>>
          /\ UNCHANGED <<fd2, level, text, lock, part, new, want, turns, res>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, "write") /\ UNCHANGED <<fd2, level, text, part, line, new, want, turns, shown, res>>
Write(t) == /\ t \in Loggers /\ pc[t] = "write" /\ part' = [part EXCEPT ![t] = (@ + 1) % Pieces]
            /\ text' = [text EXCEPT ![fd2] = Append(@, <<t, line[t], part[t] + 1>>)]
            /\ IF part[t] + 1 = Pieces THEN lock' = 0 /\ Go(t, "idle") ELSE UNCHANGED <<lock, pc>>
            /\ UNCHANGED <<fd2, level, line, new, want, turns, shown, res>>
Open(t) == /\ pc[t] = "idle" /\ turns[t] < Turns /\ turns' = [turns EXCEPT ![t] = @ + 1]
           /\ \/ \E f \in Files, lv \in {1, 2} : new' = [new EXCEPT ![t] = f] /\ want' = [want EXCEPT ![t] = lv] /\ Go(t, "lock")
              \/ UNCHANGED <<new, want, pc>>                                    \* fails
           /\ UNCHANGED <<fd2, level, text, lock, part, line, shown, res>>
Move(t) == /\ t \in Rotors /\ pc[t] = "write" /\ lock' = 0
           /\ \/ fd2' = new[t] /\ Go(t, "level")
              \/ fd2' = fd2 /\ Go(t, "idle")                                     \* fails
           /\ UNCHANGED <<level, text, part, line, new, want, turns, shown, res>>
Level(t) == /\ pc[t] = "level" /\ level' = want[t] /\ Go(t, "idle") /\ UNCHANGED <<fd2, text, lock, part, line, new, want, turns, shown, res>>
Next == (\E t \in Loggers : Say(t) \/ Lock(t) \/ Write(t)) \/ (\E t \in Rotors : Open(t) \/ Lock(t) \/ Move(t) \/ Level(t))
Spec == Init /\ [][Next]_vars
(* every line whole, in one file, once *)
Whole == \A f \in Files : \A i \in 1..Len(text[f]) : LET e == text[f][i] IN
           /\ e[3] > 1 => i > 1 /\ text[f][i - 1] = <<e[1], e[2], e[3] - 1>>
           /\ \A g \in Files : \A j \in 1..Len(text[g]) : text[g][j] = e => g = f /\ j = i
AllThere == \A x \in shown : (pc[x[1]] = "idle" \/ line[x[1]] > x[2]) => \E f \in Files : \E i \in 1..Len(text[f]) : text[f][i] = <<x[1], x[2], Pieces>>
=============================================================================
