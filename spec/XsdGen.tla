------------------------------- MODULE XsdGen -------------------------------
(***************************************************************************)
(* What the Go types generated from a world of schema look like, which of  *)
(* them are generated, and what instances of them mean: stated on the      *)
(* declarations, with nothing of the generator in it.                      *)
(*                                                                         *)
(* A configuration is a record [ns, only, allow, ignA, ignE]: the target   *)
(* namespaces, the local names of OnlyTypes, the names of AllowType, and   *)
(* the local names of ignored attributes and elements.                     *)
(***************************************************************************)
EXTENDS Xsd

\* The Go type of the values of a builtin type.
Strings == {"anyType", "anySimpleType", "ENTITY", "ID", "IDREF", "NCName", "NMTOKEN", "Name", "anyURI", "duration", "language",
            "normalizedString", "string", "token"}
StringLists == {"NMTOKENS", "IDREFS", "ENTITIES"}
Times == {"date", "dateTime", "time", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth"}
GoKind(b) ==
  CASE b \in Strings -> "string"
    [] b \in StringLists -> "[]string"
    [] b \in Times -> "time.Time"
    [] b \in {"base64Binary", "hexBinary"} -> "[]byte"
    [] b = "boolean" -> "bool"
    [] b \in {"decimal", "double"} -> "float64"
    [] b = "float" -> "float32"
    [] b = "long" -> "int64"
    [] b = "byte" -> "int8"
    [] b \in {"unsignedByte", "unsignedInt", "unsignedShort"} -> "uint"
    [] b = "unsignedLong" -> "uint64"
    [] b = "QName" -> "xml.Name"
    [] OTHER -> "int"

-----------------------------------------------------------------------------
(* The value of a reference to a type: a scalar or a list of the builtin    *)
(* type it comes from, or a structure.  A union is its text.                *)
Scalar(b) == [v |-> "s", b |-> b, list |-> FALSE, ns |-> "", n |-> "", d |-> <<>>]
Struct(ns, n) == [v |-> "c", b |-> "", list |-> FALSE, ns |-> ns, n |-> n, d |-> <<>>]
InlineC(ns, d) == [v |-> "a", b |-> "", list |-> FALSE, ns |-> ns, n |-> "", d |-> <<d>>]

OwnAts(w, ns, d, cfg) == SelectSeq(Attributes(w, ns, d.ats), LAMBDA a : a.n \notin cfg.ignA)

RECURSIVE Value(_, _, _, _)
\* the value of a declared type; nm: its reference, in the schema of ns
ValueD(w, ns, d, ref, cfg) ==
  IF d.k = "st"
  THEN CASE d.form = "union" -> Scalar("string")
         [] d.form = "list"  -> [Value(w, ns, d.base, cfg) EXCEPT !.list = TRUE]
         [] OTHER -> Value(w, ns, d.base, cfg)
  ELSE LET b == d.base
           \* simple content and nothing else: no structure is needed
           flat == /\ Simple(d) /\ OwnAts(w, ns, d, cfg) = <<>>
                   /\ \/ b.t = "b" /\ b.n # "anyType"
                      \/ b.t = "n" /\ Get(w, "ty", b.ns, b.n).k = "st"
                      \/ b.t = "a"
       IN IF flat THEN Value(w, ns, b, cfg) ELSE ref
Value(w, ns, t, cfg) ==
  CASE t.t = "b" -> Scalar(t.n)
    [] t.t = "n" -> ValueD(w, t.ns, Get(w, "ty", t.ns, t.n), Struct(t.ns, t.n), cfg)
    [] t.t = "a" -> ValueD(w, ns, t.d[1], InlineC(ns, t.d[1]), cfg)
    [] OTHER -> Scalar("anyType")

\* All elements and attributes: those of the base type, then one's own; a
\* redeclared one replaces that of the base type.
NamedAs(list, x) == \E i \in DOMAIN list : list[i].n = x.n /\ list[i].ns = x.ns /\ list[i].wild = x.wild
RECURSIVE AllEls(_, _, _), AllAts(_, _, _)
BaseDecl(w, ns, d) == LET b == BaseRef(d) IN
  CASE b.t = "n" -> <<b.ns, Get(w, "ty", b.ns, b.n)>>
    [] b.t = "a" -> <<ns, b.d[1]>>
    [] OTHER -> <<ns, D0>>
AllEls(w, ns, d) ==
  LET own == IF d.k # "ct" THEN <<>> ELSE Elements(w, ns, d.toks)
      bd == BaseDecl(w, ns, d)
      up == IF bd[2].k = "ct" THEN AllEls(w, bd[1], bd[2]) ELSE <<>>
  IN SelectSeq(up, LAMBDA x : ~NamedAs(own, x)) \o own
\* (structures tell attributes apart by their local names)
SameAt(a, b) == a.n = b.n
AllAts(w, ns, d) ==
  LET own == Attributes(w, ns, d.ats)
      bd == BaseDecl(w, ns, d)
      up == IF bd[2].k = "ct" THEN AllAts(w, bd[1], bd[2]) ELSE <<>>
  IN own \o SelectSeq(up, LAMBDA x : \A i \in DOMAIN own : ~SameAt(own[i], x))

\* The character data of a structure: none, or that of a simple type.
RECURSIVE TextOf(_, _, _, _)
TextOf(w, ns, d, cfg) ==
  LET b == BaseRef(d) IN
  CASE b.t = "b" -> IF b.n = "anyType" THEN <<>> ELSE <<Scalar(b.n)>>
    [] b.t = "n" -> LET bd == Get(w, "ty", b.ns, b.n) IN
                    IF bd.k = "st" THEN <<Value(w, ns, b, cfg)>> ELSE TextOf(w, b.ns, bd, cfg)
    [] b.t = "a" -> IF b.d[1].k = "st" THEN <<Value(w, ns, b, cfg)>> ELSE TextOf(w, ns, b.d[1], cfg)

Text(w, ns, d, cfg) == IF Mixed(w, d) THEN TextOf(w, ns, d, cfg) ELSE <<>>

ElsOf(w, ns, d, cfg) == SelectSeq(AllEls(w, ns, d), LAMBDA e : e.n \notin cfg.ignE)
AtsOf(w, ns, d, cfg) == SelectSeq(AllAts(w, ns, d), LAMBDA a : a.n \notin cfg.ignA)

\* The fields of the structure of a complex type.  P: the anonymous types it
\* is in; one that is in itself ("r") is not shown again.
RECURSIVE FieldsP(_, _, _, _, _)
ValueV(w, v, cfg, P) ==
  LET again == v.v = "a" /\ <<v.ns, v.d[1]>> \in P IN
  [v |-> IF again THEN "r" ELSE v.v, b |-> v.b, go |-> IF v.v = "s" THEN GoKind(v.b) ELSE "", list |-> v.list, ns |-> v.ns, n |-> v.n,
   f |-> IF v.v = "a" /\ ~again THEN FieldsP(w, v.ns, v.d[1], cfg, P \cup {<<v.ns, v.d[1]>>}) ELSE <<>>]
FieldsP(w, ns, d, cfg, P) ==
  LET els == ElsOf(w, ns, d, cfg)  ats == AtsOf(w, ns, d, cfg)  tx == Text(w, ns, d, cfg) IN
  [i \in DOMAIN tx |-> [f |-> "text", n |-> "", ns |-> "", plu |-> FALSE, opt |-> FALSE, ty |-> ValueV(w, tx[i], cfg, P)]]
  \o [i \in DOMAIN els |-> [f |-> IF els[i].wild THEN "any" ELSE "el", n |-> els[i].n, ns |-> els[i].ns, plu |-> els[i].plu,
                            opt |-> els[i].opt \/ els[i].nil, ty |-> ValueV(w, Value(w, els[i].tns, els[i].ty, cfg), cfg, P)]]
  \o [i \in DOMAIN ats |-> [f |-> "at", n |-> ats[i].n, ns |-> ats[i].ns, plu |-> FALSE, opt |-> ats[i].opt,
                            ty |-> ValueV(w, Value(w, ats[i].tns, ats[i].ty, cfg), cfg, P)]]
Fields(w, ns, d, cfg) == FieldsP(w, ns, d, cfg, {})

-----------------------------------------------------------------------------
(* Selection: the types asked for and everything they need.                 *)
TypeSites(w) == {s \in Sites(w) : Class(w[s[1]].decls[s[2]].k) = "ty"}
TypeNamesOf(w) == {<<w[s[1]].ns, w[s[1]].decls[s[2]].n>> : s \in TypeSites(w)}
\* (a global element stands for its type, unless it has the name of another)
ElementTypes(w, cfg) ==
  {<<d.ty.ns, d.ty.n>> : d \in {w[s[1]].decls[s[2]] : s \in {s \in Sites(w) : LET d == w[s[1]].decls[s[2]] IN
     /\ w[s[1]].ns \in cfg.ns /\ d.k = "el" /\ d.ty.t = "n" /\ <<w[s[1]].ns, d.n>> \notin TypeNamesOf(w)}}}
\* (an anonymous type anywhere else may have that name as well)
RECURSIVE AnonNames(_)
AnonNames(d) == LET one(n, t) == IF t.t = "a" THEN {n} \cup AnonNames(t.d[1]) ELSE {} IN
  one(d.n, d.ty) \cup UNION {one(d.toks[i].n, d.toks[i].ty) : i \in DOMAIN d.toks} \cup UNION {one(d.ats[i].n, d.ats[i].ty) : i \in DOMAIN d.ats}
Hidden(w, cfg) ==
  {<<d.ty.ns, d.ty.n>> : d \in {w[s[1]].decls[s[2]] : s \in {s \in Sites(w) : LET d == w[s[1]].decls[s[2]] IN
     d.k = "el" /\ d.ty.t = "n" /\ \E r \in Sites(w) : w[r[1]].ns = w[s[1]].ns /\ d.n \in AnonNames(w[r[1]].decls[r[2]])}}}
RootsOf(w, cfg, els) ==
  {t \in TypeNamesOf(w) : /\ t[1] \in cfg.ns \/ t \in els
                          /\ cfg.only # {} => t[2] \in cfg.only
                          /\ cfg.allow # {} => t \in cfg.allow}
Roots(w, cfg) == RootsOf(w, cfg, ElementTypes(w, cfg) \ Hidden(w, cfg))
MayRoots(w, cfg) == RootsOf(w, cfg, ElementTypes(w, cfg))
\* what the declaration of a type needs: every type its fields have, and
\* the base types of simple types
RECURSIVE NeedsP(_, _, _, _)
RefNeeds(w, ns, t, P) == CASE t.t = "n" -> {<<t.ns, t.n>>}
                           [] t.t = "a" -> IF <<ns, t.d[1]>> \in P THEN {} ELSE NeedsP(w, ns, t.d[1], P \cup {<<ns, t.d[1]>>})
                           [] OTHER -> {}
NeedsP(w, ns, d, P) ==
  IF d.k = "st" THEN RefNeeds(w, ns, d.base, P) \cup UNION {RefNeeds(w, ns, d.mem[i], P) : i \in DOMAIN d.mem}
  ELSE LET els == AllEls(w, ns, d)  ats == AllAts(w, ns, d)  b == BaseRef(d) IN
       UNION {RefNeeds(w, els[i].tns, els[i].ty, P) : i \in DOMAIN els} \cup UNION {RefNeeds(w, ats[i].tns, ats[i].ty, P) : i \in DOMAIN ats}
       \cup RefNeeds(w, ns, b, P)
Needs(w, ns, d) == NeedsP(w, ns, d, {})
RECURSIVE Closure(_, _)
Closure(w, S) ==
  LET more == S \cup UNION {Needs(w, t[1], Get(w, "ty", t[1], t[2])) : t \in S}
  IN IF more = S THEN S ELSE Closure(w, more)
\* Anonymous types of elements and attributes are generated with their names,
\* wherever they are declared in a namespace that is asked for.
AnonNeeds(w, cfg) ==
  LET asked(n) == cfg.allow = {} /\ (cfg.only = {} \/ n \in cfg.only)
      one(ns, n, t) == IF t.t = "a" /\ asked(n) THEN RefNeeds(w, ns, t, {}) ELSE {}
      of(ns, d) == one(ns, d.n, d.ty) \cup UNION {one(ns, d.toks[i].n, d.toks[i].ty) : i \in DOMAIN d.toks} \cup UNION {one(ns, d.ats[i].n, d.ats[i].ty) : i \in DOMAIN d.ats}
  IN UNION {of(w[s[1]].ns, w[s[1]].decls[s[2]]) : s \in {s \in Sites(w) : w[s[1]].ns \in cfg.ns}}
\* structures that have to be there: roots and the types of their fields
RECURSIVE FieldRefs(_, _)
FieldRefs(w, fs) ==
  LET one(v) == CASE v.v = "c" -> {<<v.ns, v.n>>} [] v.v = "a" -> FieldRefs(w, v.f) [] OTHER -> {}
  IN UNION {one(fs[i].ty) : i \in DOMAIN fs}
IsStruct(w, t, cfg) == Value(w, t[1], N(t[1], t[2]), cfg).v = "c"
RECURSIVE Structs(_, _, _)
Structs(w, S, cfg) ==
  LET have == {t \in S : IsStruct(w, t, cfg)}
      more == have \cup UNION {FieldRefs(w, Fields(w, t[1], Get(w, "ty", t[1], t[2]), cfg)) : t \in have}
  IN IF more = have THEN have ELSE Structs(w, more, cfg)

\* Every structure a generated field refers to is generated, and nothing is
\* generated that was not asked for or needed.
SelectionOK(w, cfg) ==
  LET r == Roots(w, cfg)  s == Structs(w, r, cfg)  c == Closure(w, r) IN
  /\ s \subseteq c
  /\ \A t \in s : FieldRefs(w, Fields(w, t[1], Get(w, "ty", t[1], t[2]), cfg)) \subseteq s

-----------------------------------------------------------------------------
(* Instances.  Lexical forms of values <<text, canonical text>>, the first  *)
(* ones not being the zero value of the Go type.                            *)
Lex(b) ==
  CASE b \in {"string", "anyType", "anySimpleType", "normalizedString"} -> <<<<"hello", "hello">>, <<"a <&> 'b' \"c\"", "a <&> 'b' \"c\"">>, <<" padded ", " padded ">>>>
    [] b \in Strings -> <<<<"tok", "tok">>, <<"a.b", "a.b">>>>
    [] b \in StringLists -> <<<<"t1 t2", "t1 t2">>, <<"t3", "t3">>>>
    [] b = "boolean" -> <<<<"true", "true">>, <<"1", "true">>, <<"false", "false">>, <<"0", "false">>>>
    [] b \in {"decimal"} -> <<<<"12.5", "12.5">>, <<"-0.25", "-0.25">>, <<"+3", "3">>, <<"123456.789", "123456.789">>, <<"0.0", "0">>>>
    [] b = "float" -> <<<<"1.5", "1.5">>, <<"-2e3", "-2000">>, <<"16777215", "16777215">>, <<"25E-2", "0.25">>, <<"0", "0">>>>
    [] b = "double" -> <<<<"-2e3", "-2000">>, <<"1234567.890625", "1234567.890625">>, <<"25E-2", "0.25">>, <<"9007199254740991", "9007199254740991">>, <<"0", "0">>>>
    [] b = "unsignedByte" -> <<<<"200", "200">>, <<"7", "7">>, <<"0", "0">>>>
    [] b \in {"unsignedInt", "nonNegativeInteger"} -> <<<<"4294967295", "4294967295">>, <<"7", "7">>, <<"0012", "12">>>>
    [] b \in {"unsignedShort", "positiveInteger"} -> <<<<"65535", "65535">>, <<"7", "7">>, <<"0012", "12">>>>
    [] b = "unsignedLong" -> <<<<"18446744073709551615", "18446744073709551615">>, <<"7", "7">>, <<"0", "0">>>>
    [] b = "long" -> <<<<"-9223372036854775808", "-9223372036854775808">>, <<"7", "7">>, <<"0", "0">>>>
    [] b \in {"negativeInteger", "nonPositiveInteger"} -> <<<<"-12", "-12">>, <<"-1", "-1">>>>
    [] b = "byte" -> <<<<"-128", "-128">>, <<"127", "127">>, <<"0", "0">>>>
    [] b = "integer" -> <<<<"-9007199254740993", "-9007199254740993">>, <<"12", "12">>, <<"+7", "7">>, <<"0", "0">>>>
    [] b = "int" -> <<<<"-2147483648", "-2147483648">>, <<"2147483647", "2147483647">>, <<"032", "32">>, <<"0", "0">>>>
    [] b = "short" -> <<<<"-7", "-7">>, <<"12", "12">>, <<"032", "32">>, <<"0", "0">>>>
    [] b = "hexBinary" -> <<<<"0aFF", "0aff">>, <<"00", "00">>, <<" 12AB ", "12ab">>>>
    [] b = "base64Binary" -> <<<<"AQID", "010203">>, <<"Cg==", "0a">>, <<"AQID\nBAUG", "010203040506">>, <<" /+8= ", "ffef">>>>
    [] b = "date" -> <<<<"2003-02-01", "2003-02-01T00:00:00Z">>, <<"1999-12-31Z", "1999-12-31T00:00:00Z">>, <<"2003-02-01+05:30", "2003-02-01T00:00:00+05:30">>>>
    [] b = "dateTime" -> <<<<"2003-02-01T10:20:30", "2003-02-01T10:20:30Z">>, <<"2003-02-01T10:20:30.25-08:00", "2003-02-01T10:20:30.25-08:00">>, <<" 2003-02-01T23:59:59Z ", "2003-02-01T23:59:59Z">>>>
    [] b = "time" -> <<<<"10:20:30", "0000-01-01T10:20:30Z">>, <<"10:20:30.5Z", "0000-01-01T10:20:30.5Z">>, <<"01:02:03+01:00", "0000-01-01T01:02:03+01:00">>>>
    [] b = "gDay" -> <<<<"---15", "0000-01-15T00:00:00Z">>, <<"---02Z", "0000-01-02T00:00:00Z">>>>
    [] b = "gMonth" -> <<<<"--11", "0000-11-01T00:00:00Z">>, <<"--02Z", "0000-02-01T00:00:00Z">>>>
    [] b = "gMonthDay" -> <<<<"--11-15", "0000-11-15T00:00:00Z">>, <<"--02-28Z", "0000-02-28T00:00:00Z">>>>
    [] b = "gYear" -> <<<<"2003", "2003-01-01T00:00:00Z">>, <<"1999+01:00", "1999-01-01T00:00:00+01:00">>>>
    [] b = "gYearMonth" -> <<<<"2003-11", "2003-11-01T00:00:00Z">>, <<"1999-02Z", "1999-02-01T00:00:00Z">>>>
    [] OTHER -> <<<<"x", "x">>>>
\* items of a list have no space in them
Items(b) == CASE b \in Strings -> <<<<"tok", "tok">>, <<"a&b", "a&b">>, <<"c", "c">>>>
              [] b = "decimal" -> Lex(b) \o <<<<"12345678.5", "12345678.5">>, <<"0.00001", "0.00001">>>>
              [] OTHER -> SelectSeq(Lex(b), LAMBDA x : x[1] \notin {" 12AB ", " /+8= ", "AQID\nBAUG", " 2003-02-01T23:59:59Z "})
At1(s, i) == s[(i % Len(s)) + 1]
\* value number i of v; an optional one is never the zero value of its type
Val(v, i, opt) ==
  IF v.list THEN LET t == Items(v.b)  n == 1 + (i % 3)  sep == At1(<<" ", "  ", "\t", " \n ">>, i) IN
                 [x |-> FoldLeft(LAMBDA a, k : IF a = "" THEN At1(t, i + k)[1] ELSE a \o sep \o At1(t, i + k)[1], "", [k \in 1..n |-> k]),
                  c |-> FoldLeft(LAMBDA a, k : IF a = "" THEN At1(t, i + k)[2] ELSE a \o " " \o At1(t, i + k)[2], "", [k \in 1..n |-> k]), b |-> v.b, l |-> TRUE]
  ELSE LET t == Lex(v.b)  u == IF opt THEN SelectSeq(t, LAMBDA x : x[2] \notin {"0", "false"}) ELSE t IN [x |-> At1(u, i)[1], c |-> At1(u, i)[2], b |-> v.b, l |-> FALSE]

\* Types that have instances at all.  Two attributes of one local name are
\* beyond the encoding of structures.
Distinct(w, ns, d, cfg) == LET a == AtsOf(w, ns, d, cfg) IN \A i, j \in DOMAIN a : i # j => a[i].n # a[j].n
AllDistinct(w, cfg) == \A t \in TypeNamesOf(w) : Distinct(w, t[1], Get(w, "ty", t[1], t[2]), cfg)
RECURSIVE FinD(_, _, _, _, _)
FinD(w, S, v, cfg, P) ==
  CASE v.v = "s" -> TRUE
    [] v.v = "c" -> <<v.ns, v.n>> \in S
    [] v.v = "a" -> LET e == ElsOf(w, v.ns, v.d[1], cfg)  me == <<v.ns, v.d[1]>> IN
                    me \notin P /\ \A i \in DOMAIN e : e[i].wild \/ e[i].opt \/ FinD(w, S, Value(w, e[i].tns, e[i].ty, cfg), cfg, P \cup {me})
RECURSIVE Finite(_, _, _)
Finite(w, S, cfg) ==
  LET more == S \cup {t \in TypeNamesOf(w) : LET d == Get(w, "ty", t[1], t[2])
                                                 e == ElsOf(w, t[1], d, cfg) IN
                        d.k = "ct" /\ \A i \in DOMAIN e : e[i].wild \/ e[i].opt \/ FinD(w, S, Value(w, e[i].tns, e[i].ty, cfg), cfg, {})}
  IN IF more = S THEN S ELSE Finite(w, more, cfg)

\* Names of type QName cannot be decoded, see known-findings.txt: structures
\* with them have no instances here.
RECURSIVE HasQName(_)
HasQName(fs) == \E i \in DOMAIN fs : fs[i].ty.b = "QName" \/ HasQName(fs[i].ty.f)
WithQName(w, cfg) == \E t \in TypeNamesOf(w) : LET d == Get(w, "ty", t[1], t[2]) IN d.k = "ct" /\ HasQName(Fields(w, t[1], d, cfg))

\* Instance number v of a structure.  fuel bounds the depth.
Leaf(val) == [ats |-> <<>>, kids |-> <<>>, tx |-> <<val>>]
RECURSIVE Inst(_, _, _, _, _, _)
Inst(w, ns, d, cfg, v, fuel) ==
  LET els == SelectSeq(ElsOf(w, ns, d, cfg), LAMBDA e : ~e.wild)
      ats == AtsOf(w, ns, d, cfg)
      tx == Text(w, ns, d, cfg)
      count(i) == LET e == els[i]  cx == Value(w, e.tns, e.ty, cfg).v # "s" IN
                  CASE v % 3 = 0 \/ (cx /\ fuel = 0) -> IF e.opt THEN 0 ELSE 1
                    [] cx /\ fuel = 1 -> IF e.opt /\ (v + i) % 3 # 0 THEN 0 ELSE 1
                    [] v % 3 = 1 -> IF e.plu THEN 2 + (i % 2) ELSE 1
                    [] OTHER -> IF e.opt THEN IF e.plu THEN (v + i) % 4 ELSE (v + i) % 2 ELSE IF e.plu THEN 1 + ((v + i) % 3) ELSE 1
      has(i) == ~ats[i].opt \/ (v % 3 = 1) \/ (v % 3 = 2 /\ (v + i) % 2 = 0)
      kid(i, k) == LET e == els[i]  val == Value(w, e.tns, e.ty, cfg)
                       u == v + i + k  o == (e.opt \/ e.nil) /\ ~e.plu IN
                   [n |-> e.n, ns |-> e.ns,
                    t |-> CASE val.v = "s" -> Leaf(Val(val, u, o))
                            [] val.v = "c" -> Inst(w, val.ns, Get(w, "ty", val.ns, val.n), cfg, u, IF fuel = 0 THEN 0 ELSE fuel - 1)
                            [] val.v = "a" -> Inst(w, val.ns, val.d[1], cfg, u, IF fuel = 0 THEN 0 ELSE fuel - 1)]
      att(i) == LET val == Value(w, ats[i].tns, ats[i].ty, cfg)  y == Val(val, v + i, ats[i].opt) IN
                [n |-> ats[i].n, ns |-> ats[i].ns, x |-> y.x, c |-> y.c, b |-> y.b, l |-> y.l]
      RECURSIVE ks(_), as(_)
      ks(i) == IF i > Len(els) THEN <<>> ELSE TLCEval([k \in 1..count(i) |-> kid(i, k)]) \o ks(i + 1)
      as(i) == IF i > Len(ats) THEN <<>> ELSE (IF has(i) THEN <<att(i)>> ELSE <<>>) \o as(i + 1)
  IN [ats |-> as(1), kids |-> ks(1), tx |-> [i \in DOMAIN tx |-> Val(tx[i], v + i, FALSE)]]

-----------------------------------------------------------------------------
(* The lexical forms of builtin types (those that a value can be written    *)
(* in, as a regular expression), and texts that are no value of them.       *)
Zone == "(Z|[+-][0-9]{2}:[0-9]{2})?"
Form(b) ==
  CASE b = "boolean" -> "true|false|1|0"
    [] b = "decimal" -> "[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)"
    [] b \in {"float", "double"} -> "[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?"
    [] b \in {"integer", "long", "int", "short", "byte"} -> "[+-]?[0-9]+"
    [] b \in {"nonNegativeInteger", "positiveInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"} -> "\\+?[0-9]+"
    [] b \in {"negativeInteger", "nonPositiveInteger"} -> "-[0-9]+|0"
    [] b = "hexBinary" -> "([0-9a-fA-F]{2})*"
    [] b = "base64Binary" -> "([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?"
    [] b = "date" -> "[0-9]{4}-[0-9]{2}-[0-9]{2}" \o Zone
    [] b = "dateTime" -> "[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)?" \o Zone
    [] b = "time" -> "[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)?" \o Zone
    [] b = "gDay" -> "---[0-9]{2}" \o Zone
    [] b = "gMonth" -> "--[0-9]{2}" \o Zone
    [] b = "gMonthDay" -> "--[0-9]{2}-[0-9]{2}" \o Zone
    [] b = "gYear" -> "[0-9]{4}" \o Zone
    [] b = "gYearMonth" -> "[0-9]{4}-[0-9]{2}" \o Zone
    [] OTHER -> ""
Formed == {"boolean", "decimal", "float", "double", "integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "unsignedLong", "unsignedInt",
           "unsignedShort", "unsignedByte", "negativeInteger", "nonPositiveInteger", "hexBinary", "base64Binary"} \cup Times
NotAValue(b) ==
  LET whole == {"no", "1.5", "--1", "0x1F", "12a", "1e3", "1,000", "99999999999999999999", "_1"} IN
  CASE b = "boolean" -> {"yes", "2", "truely", "01", "tru"}
    [] b \in {"decimal", "float", "double"} -> {"no", "1,5", "1.5.2", "--1", "1e", "12a"}
    [] b \in {"integer", "int", "short", "long", "negativeInteger", "nonPositiveInteger", "positiveInteger", "nonNegativeInteger"} -> whole
    [] b = "byte" -> whole \cup {"128", "-129", "300"}
    [] b \in {"unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"} -> whole \cup {"-1"}
    [] b = "hexBinary" -> {"0aF", "xy", "0a FF zz", "0g"}
    [] b = "base64Binary" -> {"A", "AQI*", "AQIDB", "=AQI", "AQ=="  \o "AQ=="}
    [] b = "date" -> {"2003-13-01", "2003-02-30", "03-02-01", "20030201", "2003-02-01T00:00:00", "2003-2-1x", "no", "2003-02-01+5"}
    [] b = "dateTime" -> {"2003-02-01", "2003-02-01T25:00:00Z", "2003-02-01 10:20:30", "2003-02-30T10:20:30", "no", "10:20:30"}
    [] b = "time" -> {"25:00:00", "10:20", "10:60:00", "no", "2003-02-01T10:20:30"}
    [] b = "gDay" -> {"---32", "15", "--15", "no", "---00"}
    [] b = "gMonth" -> {"--13", "11", "---11", "no", "--11-15"}
    [] b = "gMonthDay" -> {"--02-30", "--13-01", "11-15", "no", "--11"}
    [] b = "gYear" -> {"20x3", "no", "2003-11", "3"}
    [] b = "gYearMonth" -> {"2003-13", "2003", "2003-11-01", "no"}
    [] OTHER -> {}

\* The same instance with one text that is no value of its type, if it has
\* any text that can be one.
Wrong(y) == LET bad == RandomElement(NotAValue(y.b)) IN
  IF y.l THEN [y EXCEPT !.x = RandomElement({bad, y.x \o " " \o bad, bad \o " " \o y.x}), !.c = bad] ELSE [y EXCEPT !.x = RandomElement({bad, bad, " " \o bad \o " "}), !.c = bad]
CanBeWrong(y) == y.b \in Formed
RECURSIVE Spoilable(_), Spoil(_)
Spoilable(n) == \/ \E i \in DOMAIN n.ats : CanBeWrong(n.ats[i])
                \/ \E i \in DOMAIN n.tx : CanBeWrong(n.tx[i])
                \/ \E i \in DOMAIN n.kids : Spoilable(n.kids[i].t)
Spoil(n) ==
  LET places == {<<"a", i>> : i \in {i \in DOMAIN n.ats : CanBeWrong(n.ats[i])}} \cup {<<"t", i>> : i \in {i \in DOMAIN n.tx : CanBeWrong(n.tx[i])}}
                \cup {<<"k", i>> : i \in {i \in DOMAIN n.kids : Spoilable(n.kids[i].t)}}
  IN CHOOSE m \in {LET i == p[2] IN CASE p[1] = "a" -> [n EXCEPT !.ats[i] = Wrong(n.ats[i])]
                                     [] p[1] = "t" -> [n EXCEPT !.tx[i] = Wrong(n.tx[i])]
                                     [] OTHER -> [n EXCEPT !.kids[i].t = Spoil(n.kids[i].t)] : p \in {RandomElement(places)}} : TRUE
=============================================================================
