SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2, 3}
 Ops = 1
 Deaths = 2
 Signals = 1
 Keys = {1, 2}
 N = 2
INVARIANTS Exclusion LockCounts NoCycle FreeOnce BelowCur Counts KeysOnce
