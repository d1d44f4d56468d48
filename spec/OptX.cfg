SPECIFICATION Spec
CONSTANTS
  Configs = {"c1"}
  Catalog = {"ns0", "nsAM", "nsB", "ignA2", "ignE2", "allow1", "allow2", "only1", "replac", "replcx", "procp", "names", "pkgP", "slice", "out1", "lvl5"}
  MaxSteps = 3
  MaxMany = 1
  Sim = FALSE
INVARIANTS Sane Emit
PROPERTY OneSetting
CHECK_DEADLOCK FALSE
