SPECIFICATION Spec
CONSTANT Fail <- MinusOne
INVARIANT Bounds
