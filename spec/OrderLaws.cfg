SPECIFICATION Spec
INVARIANTS Reflexive Antisymmetric Transitive Trichotomy Complement Mirror FirstDecides NothingAfterMatters
  ByValue Tags CaseAside EpochFirst LocalAbove LocalBelowNext SwReflexive SwTransitive SwMutual SwCuts SwExtends Emitted
CHECK_DEADLOCK FALSE
CONSTANTS
  Block = 16
  Emit = FALSE
  K = 2
  Epochs <- E1
  Words <- W5
  Locals <- L1
