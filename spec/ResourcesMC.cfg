SPECIFICATION Spec
CONSTANTS MaxOpen = 8
INVARIANT Laws
CHECK_DEADLOCK FALSE
