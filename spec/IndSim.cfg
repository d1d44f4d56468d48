SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  Clients = {1, 2, 3}
  Ops = {"tree", "normalize", "imports", "parse", "wsdl", "code", "ast", "source", "cli", "client", "clientast", "clientcli"}
  Inputs = {"s1", "s2", "s3", "s4", "s5", "w1", "w2"}
  Opts = {0, 1, 2}
  MaxCalls = 16
INVARIANTS Independence Exclusive Emit
CHECK_DEADLOCK FALSE
