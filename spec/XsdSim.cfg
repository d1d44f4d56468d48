SPECIFICATION Spec
CONSTANTS
  Deviations = TRUE
  Sim = TRUE
  NSs = {"urn:a", "urn:b"}
  Styles = {"p", "d", "t", "n", "c", "l"}
  Wraps = {TRUE, FALSE}
  MaxDocs = 3
  Goals = {2, 3, 4, 5, 6}
  MaxToks = 10
  MaxAts = 3
  MaxNest = 3
  Kinds = {"ct", "st", "el", "at", "gr", "ag"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {"a", "b", "c", "C1", "S1"}
  ElTypes <- ElTypesA
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "y", "z"}
  AtTypes <- AtTypesA
  SimpleTypes <- SimplesA
  MaxFacs = 4
  Facs <- FacsA
  Mixes <- MixesA
  CrossNS = TRUE
INVARIANTS Design Emit
CHECK_DEADLOCK FALSE
