SPECIFICATION Spec
INVARIANTS ReadsBack CutShort Junk
