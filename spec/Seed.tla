-------------------------------- MODULE Seed --------------------------------
(* C38 seeding the random generator.  stream: which sequence the generator is  *)
(* on (0 = the unseeded one); seeded: whether a call has succeeded; up to the  *)
(* caller: whether the system gives a seed.                                    *)
EXTENDS Integers, Sequences
\* results of an initialisation: <<returned, seeded afterwards, new sequence>>
Outcomes(seeded, can) ==
  IF seeded THEN {<<0, TRUE, FALSE>>}
  ELSE {<<0, TRUE, TRUE>>} \cup (IF can THEN {} ELSE {<<-1, FALSE, FALSE>>})
=============================================================================
