SPECIFICATION Spec
CONSTANTS
  V = {0, 1, 2, 3}
  MaxAdds = 4
INVARIANTS TopoOK Emit
CHECK_DEADLOCK FALSE
