SPECIFICATION Spec
INVARIANTS Agrees NothingLost Kinds PlainCuts Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Emit = FALSE
  Alphabet = {94, 36, 40, 41, 124, 49, 32}
