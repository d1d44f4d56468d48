SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxTypes = 3
  MaxDocs = 2
INVARIANTS RoundTrip AllItems NamesDoNotMatter Emit
CHECK_DEADLOCK FALSE
