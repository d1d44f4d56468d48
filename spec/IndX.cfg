SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Clients = {1, 2}
  Ops = {"tree", "normalize", "imports", "parse", "wsdl", "code", "ast", "source", "cli", "client", "clientast", "clientcli"}
  Inputs = {"s1", "w1"}
  Opts = {0}
  MaxCalls = 2
INVARIANTS Independence Exclusive Emit
CONSTRAINT Small
CHECK_DEADLOCK FALSE
