SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxMut = 4
  Docs = {"schema", "array", "wsdl"}
INVARIANTS Shape Judged
CHECK_DEADLOCK FALSE
