SPECIFICATION Spec
CONSTANTS
  NFiles = 4
  Sim = TRUE
  Clean = FALSE
INVARIANTS ReadOnce ReadAll Emit
CHECK_DEADLOCK FALSE
