SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a"}
  Styles = {"p"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {1}
  MaxToks = 0
  MaxAts = 0
  MaxNest = 0
  Kinds = {"ct", "st"}
  Forms = {"cext", "restr"}
  ElNames = {"a"}
  ElTypes <- ElTypes1
  Occurs <- Occurs1
  CompOccurs <- NoCompOccurs
  AtNames = {"x"}
  AtTypes <- AtTypes1
  SimpleTypes <- ElTypes1
  MaxFacs = 0
  Facs <- NoFacs
  Mixes <- Mixes1
  CrossNS = FALSE
  MaxNotes <- Notes2
  NotesUsed <- TwoNotes
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
