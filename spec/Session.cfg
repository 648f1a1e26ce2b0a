SPECIFICATION Spec
INVARIANTS SameAnswer RightAnswer Immutable MadeOnce NoDeadlock Emitted
PROPERTY Finishes
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Calls = 1
  Cache = "none"
  Emit = FALSE
