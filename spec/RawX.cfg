SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxMut = 1
  Docs = {"schema", "array", "wsdl"}
INVARIANTS Shape Judged
CHECK_DEADLOCK FALSE
