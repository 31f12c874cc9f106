SPECIFICATION Spec
CONSTANTS
 P = {1, 2, 3}
 Claims = 2
 Deaths = 1
 Faults = 1
 Inodes = 4
INVARIANTS OneOwner OwnerNamed SomebodyWins NothingLeft
