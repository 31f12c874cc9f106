SPECIFICATION Spec
CONSTANTS
  MustFit <- MF
  CannotFit <- CF
  Zero = 0
INVARIANTS Distinct OneSlotEach NeverStored
PROPERTY NoLoss
