SPECIFICATION Spec
CONSTANT Most = 3
INVARIANT Laws
