SPECIFICATION Spec
CONSTANTS
  Catalog <- cCatalog
  MaxOps = 2
  Vals = {"q"}
  TextsE = {"amp"}
  LocalsE = {"x"}
  MaxSize = 6
INVARIANTS AllExpressible AllRoundTrip Stable Emit
CHECK_DEADLOCK FALSE
