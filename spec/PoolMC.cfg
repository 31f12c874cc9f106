SPECIFICATION Spec
CONSTANT Fail = 99
INVARIANT Bounds
PROPERTY NeverTwice
