SPECIFICATION Spec
CONSTANTS
 P = {1, 2, 3}
 Claims = 3
 Deaths = 2
 Faults = 2
 Inodes = 6
INVARIANTS OneOwner OwnerNamed SomebodyWins NothingLeft
