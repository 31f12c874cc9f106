SPECIFICATION Spec
CONSTANTS M = 3

 MaxN = 9
INVARIANT Laws
CHECK_DEADLOCK FALSE
