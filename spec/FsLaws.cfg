SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Laws
