SPECIFICATION Spec
CONSTANTS
  V = {0, 1, 2, 3, 4, 5, 6, 9}
  MaxAdds = 12
INVARIANTS TopoOK Emit
CHECK_DEADLOCK FALSE
