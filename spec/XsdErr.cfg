SPECIFICATION SpecE
CONSTANTS
  MaxDecls = 3
  Catalog <- CatalogA
  Styles = {"p"}
  Wraps = {FALSE}
  Deviations = TRUE
  Sim = FALSE
  NSs = {"urn:a", "urn:b"}
  Goals = {0}
  MaxDocs = 3
  MaxToks = 1
  MaxAts = 1
  MaxNest = 1
  Kinds = {"ct"}
  Forms = {"short"}
  ElNames = {"a"}
  ElTypes <- ElTypesA
  Occurs <- OccursA
  CompOccurs <- CompOccursA
  AtNames = {"x"}
  AtTypes <- AtTypesA
  SimpleTypes <- SimplesA
  MaxFacs = 4
  Facs <- FacsA
  Mixes <- MixesA
  CrossNS = TRUE
INVARIANTS EmitE
PROPERTY Monotone
CHECK_DEADLOCK FALSE
