SPECIFICATION Spec
INVARIANTS Typed Reflexive Antisymmetric Transitive ZeroIsAbsent
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters <- A1
  Width = 2
