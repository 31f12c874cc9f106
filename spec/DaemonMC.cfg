SPECIFICATION Spec
CONSTANTS N = 3
Faults = 1
Deaths = 1
INVARIANTS OneRuns NamesIt NoLeft
PROPERTY Loads
