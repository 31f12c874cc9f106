SPECIFICATION Spec
CONSTANT MaxToks = 4
INVARIANTS Idempotent Normal Relative
