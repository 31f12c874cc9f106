SPECIFICATION Spec
INVARIANT Ok
