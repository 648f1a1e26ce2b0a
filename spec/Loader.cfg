SPECIFICATION Spec
INVARIANTS Verdict NoMending LoadedMeaning OrderAside Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  Level = "root"
  Faults = 1
  Emit = FALSE
