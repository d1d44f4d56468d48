SPECIFICATION Spec
CONSTANTS
  Catalog <- cCatalog
  MaxSteps = 3
INVARIANTS NeutralOK Symmetric Emit
CHECK_DEADLOCK FALSE
