SPECIFICATION Spec
INVARIANTS PiecesAside NothingKept Emitted
PROPERTY Dead Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 6
  Extra = 2
  Most = 3
  Stops = 2
  Emit = FALSE
