SPECIFICATION Spec
CONSTANTS
 Start <- StartFifo
 Moves <- MovesFifo
 Died <- PlainDeath
 QuietOK <- AnyQuiet
 WaitOK <- AnyWait
