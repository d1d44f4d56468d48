SPECIFICATION Spec
CONSTANTS
  Bases = {"decimal", "double", "float", "byte", "int", "integer", "long", "negativeInteger", "nonNegativeInteger", "nonPositiveInteger", "positiveInteger", "short", "unsignedByte", "unsignedInt", "unsignedLong", "unsignedShort", "date", "dateTime", "time", "duration", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth"}
  MaxFacets = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
