SPECIFICATION GSpec
CONSTANTS
  Deviations = TRUE
  Sim = TRUE
  Select = FALSE
  Insts = 3
  Spoiled = 0
  NSs = {"urn:a", "urn:b"}
  Styles = {"p", "d", "t"}
  Wraps = {FALSE}
  MaxDocs = 2
  Goals = {2, 3, 4}
  MaxToks = 10
  MaxAts = 4
  MaxNest = 2
  Kinds = {"ct", "st"}
  Forms = {"short", "cext", "crestr", "sext", "srestr", "restr", "list", "union"}
  ElNames = {"x", "X", "xAttr", "x0", "xAttr0", "items", "item", "item0", "value", "T", "C1", "marshalXML", "unmarshalXML", "unmarshalText", "@cjk", "@dot", "@us", "@us1", "@hy", "@hz"}
  ElTypes <- ElTypesG
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x", "X", "xAttr", "y", "value", "items", "@cjk", "@dot", "@hy", "@us", "@us1"}
  AtTypes <- AtTypesG
  SimpleTypes <- SimplesG
  MaxFacs = 2
  Facs <- FacsG
  Mixes <- MixesA
  CrossNS = FALSE
INVARIANTS GDesign GEmit
CHECK_DEADLOCK FALSE
