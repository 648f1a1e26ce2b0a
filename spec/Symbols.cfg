SPECIFICATION Spec
INVARIANTS OneNotation SpacesAside CaseAside ReadBack Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Typing = "signs"
  Emit = FALSE
