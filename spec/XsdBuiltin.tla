----------------------------- MODULE XsdBuiltin -----------------------------
(***************************************************************************)
(* The names of the built-in types of XML Schema, and what a reference to  *)
(* a name means: the built-in type if it has that name in the namespace of *)
(* XML Schema, else the type declared with that name, else nothing.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
XS == "http://www.w3.org/2001/XMLSchema"
Builtins == {"anyType", "anySimpleType", "ENTITIES", "ENTITY", "ID", "IDREF", "IDREFS", "NCName", "NMTOKEN", "NMTOKENS", "NOTATION", "Name", "QName",
  "anyURI", "base64Binary", "boolean", "byte", "date", "dateTime", "decimal", "double", "duration", "float", "gDay", "gMonth", "gMonthDay",
  "gYear", "gYearMonth", "hexBinary", "int", "integer", "language", "long", "negativeInteger", "nonNegativeInteger", "nonPositiveInteger",
  "normalizedString", "positiveInteger", "short", "string", "time", "token", "unsignedByte", "unsignedInt", "unsignedLong", "unsignedShort"}
\* names that look like one
Others == {"AnyType", "String", "ENTITYS", "entity", "id", "Id", "nmtoken", "name", "qName", "datetime", "Integer", "unsigned", "", "schema",
           "duratio", "hexBinaryy", "gyear", "GYear", "anySimpletype", "notation", "IDRef", "lang", "space", "base"}
VARIABLES q, declared, pos
vars == <<q, declared, pos>>
Spaces == {XS, "urn:t", "", "http://www.w3.org/2001/XMLSchema-instance"}
Positions == {"element", "attribute", "restriction", "list", "union", "extension", "global"}

Init == q \in Spaces \X (Builtins \cup Others) /\ declared \in {TRUE, FALSE} /\ pos = "none"
\* a reference to the name from some position of a schema, where a type of
\* that name in urn:t may be declared
Refer == /\ pos = "none" /\ q[1] \in {XS, "urn:t"} /\ q[2] \notin {""} /\ pos' \in Positions
         /\ UNCHANGED <<q, declared>>
Spec == Init /\ [][Refer]_vars

IsBuiltin(n) == n[1] = XS /\ n[2] \in Builtins
Meaning == IF IsBuiltin(q) THEN "builtin" ELSE IF q[1] = "urn:t" /\ declared THEN "declared" ELSE "error"
Count == Cardinality(Builtins)
Emit == CSVWrite("%1$s", <<ToJson([k |-> "builtin", ns |-> q[1], n |-> q[2], declared |-> declared, pos |-> pos, meaning |-> Meaning, count |-> Count])>>, IOEnv.OUT)
=============================================================================
