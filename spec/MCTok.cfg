SPECIFICATION Spec
CONSTANTS
  MaxToks = 6
  Tags = {"a", "p:a", "q:a"}
INVARIANTS OkMeansClosed Emit
CHECK_DEADLOCK FALSE
