SPECIFICATION Spec
CONSTANTS MaxOps = 7
INVARIANT Laws
CHECK_DEADLOCK FALSE
