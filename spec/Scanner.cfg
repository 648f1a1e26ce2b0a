SPECIFICATION Spec
INVARIANTS AcceptsWellFormed ReadsComponents NeverEmpty NothingLost SepsOnly Shape ShowsFaithfully Emitted
PROPERTY RefusalIsFinal
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Emit = FALSE
  Tokens <- Chars
