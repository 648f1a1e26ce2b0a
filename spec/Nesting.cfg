SPECIFICATION Spec
INVARIANTS RightAnswer NothingLeft Emitted
PROPERTY OverAtLast
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Depth = 3
  Scratch = "none"
  Emit = FALSE
