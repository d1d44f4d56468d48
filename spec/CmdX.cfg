SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxSteps = 3
  Small = TRUE
INVARIANTS Function Emit
PROPERTY Effect
CHECK_DEADLOCK FALSE
