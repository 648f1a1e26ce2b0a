SPECIFICATION Spec
INVARIANTS Agrees Kind GlobAsRegex Emitted
PROPERTY Hopeless
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Depth = 2
  Globs = FALSE
  Emit = FALSE
  Alphabet = {97, 49, 46}
