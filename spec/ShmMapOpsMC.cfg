SPECIFICATION Spec
CONSTANTS
 MaxCalls = 6
 Deaths = 1
INVARIANTS Bounded Alone HeldByLiving GeoFixed Values TornByDeath
PROPERTIES GeoOnce
