SPECIFICATION Spec
CONSTANTS
 N = 2
 Writers = {1, 2}
 Readers = {3, 4}
 PerWriter = 2
 PerReader = 2
 Deaths = 1
INVARIANTS InOrder CountBelow Exact Bounded LockedByLiving
PROPERTIES Finishes
