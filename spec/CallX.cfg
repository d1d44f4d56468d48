SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Mode = "run"
  MaxSteps = 0
  MaxCalls = 2
  ReqHooks = {"none", "same", "url"}
  RspHooks = {"none", "same", "body"}
INVARIANTS OneForEach Reverts ErrIffBad OwnAnswer Emit
CHECK_DEADLOCK FALSE
PROPERTY Final
