SPECIFICATION Spec
CONSTANTS
 MaxCalls = 6
 Deaths = 1
INVARIANTS Bounded Counted OwnBox Attached
