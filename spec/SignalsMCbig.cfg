SPECIFICATION Spec
CONSTANT Sigs = {1, 2, 10, 15, 17, 18, 20}
INVARIANTS Exact Sane
PROPERTY Effect
