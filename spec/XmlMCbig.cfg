SPECIFICATION Spec
CONSTANTS
 MaxNodes = 4
 MaxDepth = 3
INVARIANTS Bound LevelsFit
