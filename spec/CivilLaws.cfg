SPECIFICATION Spec
INVARIANTS Agree TickDay
