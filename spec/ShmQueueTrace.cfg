SPECIFICATION Spec
CONSTANTS
 Start <- StartQ
 Moves <- MovesQ
 Died <- PlainDeath
 QuietOK <- NobodyWaits
 WaitOK <- AnyWait
