SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Mode = "gen"
  MaxSteps = 3
  MaxCalls = 0
  ReqHooks = {"none", "same", "url"}
  RspHooks = {"none", "same", "body"}
INVARIANTS OneForEach Reverts ErrIffBad OwnAnswer Emit
CHECK_DEADLOCK FALSE
