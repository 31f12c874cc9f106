SPECIFICATION Spec
INVARIANT Laws
