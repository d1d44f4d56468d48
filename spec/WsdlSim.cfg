SPECIFICATION Spec
CONSTANTS
  MaxComps = 10
  Sim = TRUE
INVARIANTS OrderSaysNothing PrefixesSayNothing AllPorts Emit
CHECK_DEADLOCK FALSE
