SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a"}
  Styles = {"p"}
  Wraps = {FALSE}
  MaxDocs = 1
  Goals = {1, 2}
  MaxToks = 10
  MaxAts = 3
  MaxNest = 3
  Kinds = {"st"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {"a", "b", "c", "C1", "S1"}
  ElTypes <- ElTypesA
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "y", "z"}
  AtTypes <- AtTypesA
  SimpleTypes <- SimplesN
  MaxFacs = 4
  Facs <- NoFacs
  Mixes <- MixesA
  CrossNS = FALSE
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
