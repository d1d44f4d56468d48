SPECIFICATION Spec
CONSTANTS
  Docs <- cDocs
  MaxJoins = 3
INVARIANTS JoinOK Emit
PROPERTY Immutable
CHECK_DEADLOCK FALSE
