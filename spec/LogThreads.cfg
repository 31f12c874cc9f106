SPECIFICATION Spec
INVARIANT OK
