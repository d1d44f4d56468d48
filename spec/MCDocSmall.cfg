SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  MaxDepth = 3
  MaxKids = 2
  Locals = {"a"}
  Prefixes = {"", "p", "q"}
  DeclSets <- cDecls
  AttrSets <- cAttrs
  Texts = {""}
  Pads = {""}
INVARIANTS InverseOK RoundTripOK SubtreeOK ScopeOK EqualSelf Emit
CHECK_DEADLOCK FALSE
