SPECIFICATION Spec
CONSTANTS
 NProc = 3
 MaxElems = 2
INVARIANTS NoStarvation OnlyWaitersWait
