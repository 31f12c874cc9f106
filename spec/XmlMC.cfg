SPECIFICATION Spec
CONSTANTS
 MaxNodes = 3
 MaxDepth = 3
INVARIANTS Bound LevelsFit
