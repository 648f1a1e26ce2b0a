SPECIFICATION Spec
INVARIANTS Complementary EqualAlike Interval Closed Newest Emitted
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTerms = 3
  Emit = FALSE
  K = 1
  Epochs <- E0
  Words <- W4
  Locals <- L1
