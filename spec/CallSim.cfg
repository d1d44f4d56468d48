SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  Mode = "run"
  MaxSteps = 3
  MaxCalls = 4
  ReqHooks = {"none", "same", "url"}
  RspHooks = {"none", "same", "body"}
INVARIANTS OneForEach Reverts ErrIffBad OwnAnswer Emit
CHECK_DEADLOCK FALSE
