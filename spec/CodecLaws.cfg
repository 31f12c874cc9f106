CONSTANTS
 Alpha = {0,1,57,58,128,255}
 MaxLen = 4
 TextAlpha = {49,50,122,65,61,46,48,45}
SPECIFICATION Spec
INVARIANTS RoundTrip Canonical58 Groups
