SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a"}
  Styles = {"p"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {2}
  MaxToks = 0
  MaxAts = 0
  MaxNest = 0
  Kinds = {"ct"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {}
  ElTypes <- ElTypesA
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "y", "z"}
  AtTypes <- AtTypesA
  SimpleTypes <- SimplesN
  MaxFacs = 4
  Facs <- FacsA
  Mixes <- Mixes4
  CrossNS = FALSE
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
