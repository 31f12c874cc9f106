SPECIFICATION Spec
CONSTANTS
 N = 3
 Writers = {1, 2}
 Readers = {3, 4}
 PerWriter = 3
 PerReader = 3
 Deaths = 2
INVARIANTS InOrder CountBelow Exact Bounded LockedByLiving
