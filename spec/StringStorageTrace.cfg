SPECIFICATION Spec
CONSTANTS
  MustFit <- MF
  CannotFit <- CF
  Zero <- MinusOne
