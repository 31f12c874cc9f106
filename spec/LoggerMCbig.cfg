SPECIFICATION Spec
CONSTANTS
 Loggers = {1, 2}
 Rotors = {3, 4}
 Files = {1, 2}
 Pieces = 2
 Lines = 2
 Turns = 2
INVARIANTS Whole AllThere
