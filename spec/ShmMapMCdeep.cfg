SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 Ops = 3
 Deaths = 1
 Signals = 1
 Keys = {1, 2}
 N = 2
INVARIANTS Exclusion LockCounts NoCycle FreeOnce BelowCur Counts KeysOnce
PROPERTIES Finishes
