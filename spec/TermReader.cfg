SPECIFICATION Spec
INVARIANTS Agrees Bounds Wildcards BoundsIgnoreStar Hides Exactness Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Emit = FALSE
  Alphabet = {60, 61, 33, 126, 49, 46, 42, 94, 36, 64, 97, 32}
