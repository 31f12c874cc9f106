SPECIFICATION Spec
CONSTANTS
 Start <- StartWake
 Moves <- MovesWake
 Died <- PlainDeath
 QuietOK <- WaitQuiet
 WaitOK <- InWait
