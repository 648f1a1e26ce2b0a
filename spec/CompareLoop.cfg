SPECIFICATION Spec
INVARIANTS Decided PassedEqual WhatIsLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  K = 2
  Epochs <- E1
  Words <- W5
  Locals <- L1
