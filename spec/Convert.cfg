SPECIFICATION Spec
INVARIANTS Same Agrees Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  Emit = FALSE
