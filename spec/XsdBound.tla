------------------------------ MODULE XsdBound ------------------------------
(***************************************************************************)
(* What the bounds of a simple type mean: numbers for numeric types, dates *)
(* for date types, nothing for types that a bound cannot be stored for.    *)
(* A history of bounds is written into one restriction; of several bounds  *)
(* on the same side the last one counts.  The base may be given directly   *)
(* or through a named type.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Bases, MaxFacets
VARIABLES base, named, facets
vars == <<base, named, facets>>

Numeric == {"decimal", "double", "float", "byte", "int", "integer", "long", "negativeInteger", "nonNegativeInteger",
            "nonPositiveInteger", "positiveInteger", "short", "unsignedByte", "unsignedInt", "unsignedLong", "unsignedShort"}
Class(b) == IF b \in Numeric THEN "num" ELSE IF b = "date" THEN "date" ELSE IF b = "dateTime" THEN "dateTime" ELSE "none"

\* lexical values by class; num values are numbers in halves
Values(b) == CASE b = "decimal" -> {"3", "-2.5", "0", " 7 "}
               [] b \in {"double", "float"} -> {"3", "-2.5", "1e2"}
               [] b \in {"negativeInteger", "nonPositiveInteger"} -> {"-3", "-100"}
               [] b \in Numeric -> {"3", "100", "0"}
               [] b = "date" -> {"2001-02-03", "1999-12-31Z", "2004-02-29+05:00"}
               [] b = "dateTime" -> {"2001-02-03T04:05:06Z", "2001-02-03T04:05:06", "2001-02-03T04:05:06.5-08:00"}
               [] b = "time" -> {"04:05:06", "04:05:06Z"}
               [] b = "duration" -> {"P1Y", "-PT5M"}
               [] b = "gDay" -> {"---05"}
               [] b = "gMonth" -> {"--05"}
               [] b = "gMonthDay" -> {"--05-06"}
               [] b = "gYear" -> {"2001"}
               [] b = "gYearMonth" -> {"2001-05"}
\* what values that are no numbers denote: UTC seconds are computed by the driver from this table
Norm(v) == CASE v = "2001-02-03" -> "2001-02-03T00:00:00Z" [] v = "1999-12-31Z" -> "1999-12-31T00:00:00Z"
             [] v = "2004-02-29+05:00" -> "2004-02-28T19:00:00Z"
             [] v = "2001-02-03T04:05:06" -> "2001-02-03T04:05:06Z"
             [] v = "2001-02-03T04:05:06.5-08:00" -> "2001-02-03T12:05:06.5Z" [] v = " 7 " -> "7" [] v = "1e2" -> "100" [] OTHER -> v

Sides == {"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"}
Side(f) == IF f \in {"minInclusive", "minExclusive"} THEN "min" ELSE "max"
Init == base \in Bases /\ named \in {TRUE, FALSE} /\ facets = <<>>
Add == /\ Len(facets) < MaxFacets
       /\ \E f \in Sides, v \in Values(base) : facets' = Append(facets, [f |-> f, v |-> v])
       /\ UNCHANGED <<base, named>>
Spec == Init /\ [][Add]_vars

Last(side) == LET s == SelectSeq(facets, LAMBDA x : Side(x.f) = side) IN IF s = <<>> THEN "" ELSE s[Len(s)].v
\* Bounds of types that cannot be stored are left out.  What a named type
\* without date or number is given is not specified.
Want(side) == [class |-> IF Last(side) = "" THEN "none" ELSE Class(base), v |-> IF Last(side) = "" THEN "" ELSE Norm(Last(side))]
Emit == (facets # <<>> /\ ~(named /\ Class(base) = "none")) =>
  CSVWrite("%1$s", <<ToJson([k |-> "bound", base |-> base, named |-> named, facets |-> facets, min |-> Want("min"), max |-> Want("max")])>>, IOEnv.OUT)
=============================================================================
