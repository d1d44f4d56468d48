SPECIFICATION Spec
CONSTANTS
  MaxNodes = 2
  MaxDepth = 3
  MaxKids = 2
  Locals = {"a"}
  Prefixes = {"", "p", "q", "r"}
  DeclSets <- cDecls
  AttrSets <- cAttrs
  Texts = {"", "amp"}
  Pads = {""}
INVARIANTS InverseOK RoundTripOK SubtreeOK ScopeOK EqualSelf Emit
CHECK_DEADLOCK FALSE
