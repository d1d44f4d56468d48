SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a"}
  Styles = {"p"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {1}
  MaxToks = 3
  MaxAts = 1
  MaxNest = 1
  Kinds = {"ct", "st", "el", "at"}
  Forms = {"short", "sext", "restr", "list"}
  ElNames = {"a"}
  ElTypes <- ElTypes1
  Occurs <- Occurs1
  CompOccurs <- NoCompOccurs
  AtNames = {"x"}
  AtTypes <- AtTypes1
  SimpleTypes <- ElTypes1
  MaxFacs = 0
  Facs <- NoFacs
  Mixes <- Mixes1
  CrossNS = FALSE
  MaxNotes <- Notes1
  NotesUsed <- FewNotes
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
