SPECIFICATION TraceSpec
CONSTANT Deviations = TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
