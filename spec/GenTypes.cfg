SPECIFICATION GSpec
CONSTANTS
  Deviations = TRUE
  Sim = TRUE
  Select = FALSE
  Insts = 3
  Spoiled = 0
  NSs = {"urn:a", "urn:b"}
  Styles = {"p", "d", "t"}
  Wraps = {FALSE}
  MaxDocs = 2
  Goals = {2, 3, 4}
  MaxToks = 10
  MaxAts = 3
  MaxNest = 2
  Kinds = {"ct", "st"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {"a", "b", "c", "C1", "S1", "items", "value", "T", "x"}
  ElTypes <- ElTypesG
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "y", "z", "a", "id"}
  AtTypes <- AtTypesG
  SimpleTypes <- SimplesG
  MaxFacs = 2
  Facs <- FacsG
  Mixes <- MixesA
  CrossNS = FALSE
INVARIANTS GDesign GEmit
CHECK_DEADLOCK FALSE
