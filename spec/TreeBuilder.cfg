SPECIFICATION Spec
INVARIANTS AcceptsGrammar RefusesOthers BuildsTree IsCanonical InOrder Balance Rises Means RoundTrip Redundant ShowsTree Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 6
  MaxTerms = 4
  Emit = FALSE
