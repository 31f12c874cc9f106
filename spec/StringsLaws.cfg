SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 65, 98}
  MaxLen = 6
  Sets <- SetsDef
INVARIANTS Mirror Maximal ChrMirror SubSound SplitJoin
