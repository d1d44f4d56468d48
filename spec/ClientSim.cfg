SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  Mode = "gen"
  MaxSteps = 7
  MaxCalls = 0
  ReqHooks = {"none", "same", "url"}
  RspHooks = {"none", "same", "body"}
INVARIANTS OneForEach Reverts ErrIffBad OwnAnswer Emit
CHECK_DEADLOCK FALSE
