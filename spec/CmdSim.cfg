SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxSteps = 12
  Small = FALSE
INVARIANTS Function Emit
PROPERTY Effect
CHECK_DEADLOCK FALSE
