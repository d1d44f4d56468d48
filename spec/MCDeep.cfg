SPECIFICATION Spec
CONSTANTS
  Steps = {2, 3, 5, 10}
  Safe = 1000
  Refused = 300000
  Shapes = {"chain", "open", "comb"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
