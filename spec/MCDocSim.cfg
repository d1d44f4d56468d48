SPECIFICATION Spec
CONSTANTS
  MaxNodes = 7
  MaxDepth = 4
  MaxKids = 3
  Locals = {"a", "b"}
  Prefixes = {"", "p", "q", "r"}
  DeclSets <- cDecls
  AttrSets <- cAttrs
  Texts = {"", "t", "amp", "cd", "u", "cm", "pi", "num", "ws", "crlf"}
  Pads = {"", "l", "r", "b"}
INVARIANTS InverseOK RoundTripOK SubtreeOK ScopeOK EqualSelf Emit
CHECK_DEADLOCK FALSE
