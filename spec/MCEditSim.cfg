SPECIFICATION Spec
CONSTANTS
  Catalog <- cCatalog
  MaxOps = 7
  Vals = {"q","nl","1"}
  TextsE = {"amp","t","cd",""}
  LocalsE = {"x","b","y"}
  MaxSize = 9
INVARIANTS AllExpressible AllRoundTrip Stable Emit
CHECK_DEADLOCK FALSE
