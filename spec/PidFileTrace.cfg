SPECIFICATION Spec
CONSTANTS
 Start <- StartP
 Moves <- MovesP
 Died <- DiedP
 QuietOK <- NobodyWaits
 WaitOK <- AnyWait
