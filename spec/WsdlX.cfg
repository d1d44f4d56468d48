SPECIFICATION Spec
CONSTANTS
  MaxComps = 4
  Sim = FALSE
INVARIANTS OrderSaysNothing PrefixesSayNothing AllPorts Emit
CHECK_DEADLOCK FALSE
