SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a", "urn:b"}
  Styles = {"t"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {1}
  MaxToks = 2
  MaxAts = 1
  MaxNest = 1
  Kinds = {"ct", "gr", "ag", "at", "el"}
  Forms = {"short"}
  ElNames = {"a"}
  ElTypes <- ElTypes1
  Occurs <- Occurs1
  CompOccurs <- Occurs1
  AtNames = {"z"}
  AtTypes <- AtTypes1
  SimpleTypes <- SimplesA
  MaxFacs = 4
  Facs <- FacsA
  Mixes <- Mixes1
  CrossNS = TRUE
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
