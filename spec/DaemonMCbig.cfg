SPECIFICATION Spec
CONSTANTS N = 4
Faults = 2
Deaths = 1
INVARIANTS OneRuns NamesIt NoLeft
PROPERTY Loads
