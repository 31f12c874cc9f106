SPECIFICATION Spec
CONSTANT Most = 2
INVARIANT Laws
