SPECIFICATION Spec
CONSTANTS
  MaxSchemas = 2
  MaxStmts = 3
  Kinds = {"import", "include", "decoy", "text"}
  NSs = {"", "urn:a", "urn:b"}
  Locs = {"", "x.xsd"}
INVARIANT Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
