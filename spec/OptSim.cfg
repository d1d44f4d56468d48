SPECIFICATION Spec
CONSTANTS
  Configs = {"c1", "c2"}
  Catalog = {"ns0", "nsAA", "nsAM", "nsA", "nsB", "nsAB", "pkgP", "pkgQ", "ignA0", "ignA1", "ignA2", "ignE1", "ignE2", "only1", "only2", "allow1", "allow2", "allow3",
             "replac", "replcx", "replb", "replbad", "procp", "procq", "names", "soap", "slice", "out1", "out2", "out0", "lvl0", "lvl5"}
  MaxSteps = 12
  MaxMany = 1
  Sim = TRUE
INVARIANTS Sane Emit
PROPERTY OneSetting
CHECK_DEADLOCK FALSE
