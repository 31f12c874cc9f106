SPECIFICATION Spec
CONSTANTS
 Start <- StartM
 Moves <- MovesM
 Died <- DiedM
 QuietOK <- NobodyWaits
 WaitOK <- AnyWait
