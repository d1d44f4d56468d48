SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxTypes = 6
  MaxDocs = 6
INVARIANTS RoundTrip AllItems NamesDoNotMatter Emit
CHECK_DEADLOCK FALSE
