SPECIFICATION GSpec
CONSTANTS
  Deviations = TRUE
  Sim = TRUE
  Select = TRUE
  Insts = 1
  Spoiled = 0
  NSs = {"urn:a", "urn:b"}
  Styles = {"p", "d", "t"}
  Wraps = {FALSE}
  MaxDocs = 2
  Goals = {3, 4, 5, 6}
  MaxToks = 7
  MaxAts = 3
  MaxNest = 2
  Kinds = {"ct", "st", "el", "at", "gr", "ag"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {"a", "b", "c", "C1", "S1", "items", "value", "T", "x"}
  ElTypes <- ElTypesG
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "y", "z", "a", "id"}
  AtTypes <- AtTypesG
  SimpleTypes <- SimplesG
  MaxFacs = 2
  Facs <- FacsG
  Mixes <- MixesA
  CrossNS = TRUE
INVARIANTS GDesign GEmit
CHECK_DEADLOCK FALSE
