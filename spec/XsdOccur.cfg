SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a"}
  Styles = {"p"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {1}
  MaxToks = 4
  MaxAts = 0
  MaxNest = 2
  Kinds = {"ct"}
  Forms = {"short"}
  ElNames = {"a"}
  ElTypes <- ElTypes1
  Occurs <- Occurs2
  CompOccurs <- Occurs2
  AtNames = {"x", "y", "z"}
  AtTypes <- AtTypesA
  SimpleTypes <- SimplesA
  MaxFacs = 4
  Facs <- FacsA
  Mixes <- Mixes1
  CrossNS = FALSE
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
