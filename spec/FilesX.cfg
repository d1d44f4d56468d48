SPECIFICATION Spec
CONSTANTS
  NFiles = 3
  Sim = FALSE
  Clean = TRUE
INVARIANTS ReadOnce ReadAll Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
