------------------------------ MODULE RawSchema ------------------------------
(***************************************************************************)
(* Documents that somebody broke.  A document is a sequence of elements    *)
(* [n, d, at] in document order, d being the depth; the actions remove,    *)
(* repeat, move, wrap and rename elements, change attributes, and cut the  *)
(* text of a valid document.  Any of them gives either schema that are     *)
(* complete, or an error; Legal says which are still correct and have to   *)
(* be accepted, Wrong says which are surely not and have to be rejected.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils

CONSTANTS Sim, MaxMut, Docs
VARIABLES doc, cut, muts, phase
vars == <<doc, cut, muts, phase>>

Pick(X) == IF Sim /\ X # {} THEN {RandomElement(X)} ELSE X
E(d, n, at) == [n |-> n, d |-> d, at |-> at]

SchemaDoc == <<
  E(0, "schema", <<<<"targetNamespace", "urn:a">>, <<"elementFormDefault", "qualified">>>>),
  E(1, "complexType", <<<<"name", "C1">>, <<"mixed", "true">>>>),
  E(2, "sequence", <<>>),
  E(3, "element", <<<<"name", "a">>, <<"type", "xs:int">>, <<"minOccurs", "0">>>>),
  E(3, "element", <<<<"name", "b">>, <<"type", "a:C2">>, <<"nillable", "true">>, <<"minOccurs", "0">>, <<"maxOccurs", "unbounded">>>>),
  E(3, "element", <<<<"name", "c">>>>),
  E(4, "simpleType", <<>>),
  E(5, "restriction", <<<<"base", "xs:string">>>>),
  E(6, "enumeration", <<<<"value", "x">>>>),
  E(6, "maxLength", <<<<"value", "3">>>>),
  E(3, "any", <<<<"maxOccurs", "7">>>>),
  E(2, "attribute", <<<<"name", "x">>, <<"type", "a:S1">>, <<"use", "required">>>>),
  E(1, "complexType", <<<<"name", "C2">>, <<"abstract", "true">>>>),
  E(2, "complexContent", <<<<"mixed", "true">>>>),
  E(3, "extension", <<<<"base", "a:C1">>>>),
  E(4, "choice", <<<<"maxOccurs", "unbounded">>>>),
  E(5, "element", <<<<"ref", "a:e">>>>),
  E(5, "group", <<<<"ref", "a:G">>, <<"minOccurs", "0">>>>),
  E(4, "attributeGroup", <<<<"ref", "a:A">>>>),
  E(4, "attribute", <<<<"name", "w">>, <<"type", "a:S2">>>>),
  E(1, "complexType", <<<<"name", "Q">>>>),
  E(2, "simpleContent", <<>>),
  E(3, "extension", <<<<"base", "a:S3">>>>),
  E(4, "attribute", <<<<"ref", "a:at">>>>),
  E(4, "attribute", <<<<"name", "v">>, <<"type", "a:S1">>, <<"use", "optional">>, <<"default", "3">>>>),
  E(1, "simpleType", <<<<"name", "S1">>>>),
  E(2, "restriction", <<<<"base", "xs:decimal">>>>),
  E(3, "minInclusive", <<<<"value", "1">>>>),
  E(3, "fractionDigits", <<<<"value", "3">>>>),
  E(1, "simpleType", <<<<"name", "S2">>>>),
  E(2, "list", <<<<"itemType", "a:S1">>>>),
  E(1, "simpleType", <<<<"name", "S3">>>>),
  E(2, "union", <<<<"memberTypes", "a:S1 xs:int">>>>),
  E(3, "simpleType", <<>>),
  E(4, "restriction", <<<<"base", "xs:date">>>>),
  E(5, "maxExclusive", <<<<"value", "2020-01-01">>>>),
  E(1, "element", <<<<"name", "e">>, <<"type", "a:C1">>>>),
  E(1, "element", <<<<"name", "e2">>>>),
  E(2, "complexType", <<>>),
  E(3, "all", <<>>),
  E(4, "element", <<<<"name", "f">>, <<"type", "xs:string">>, <<"default", "x">>>>),
  E(4, "element", <<<<"name", "g">>, <<"type", "a:S2">>, <<"minOccurs", "1">>>>),
  E(1, "attribute", <<<<"name", "at">>>>),
  E(2, "simpleType", <<>>),
  E(3, "list", <<>>),
  E(4, "simpleType", <<>>),
  E(5, "restriction", <<<<"base", "a:S1">>>>),
  E(1, "group", <<<<"name", "G">>>>),
  E(2, "sequence", <<>>),
  E(3, "element", <<<<"name", "h">>, <<"type", "xs:date">>>>),
  E(1, "attributeGroup", <<<<"name", "A">>>>),
  E(2, "attribute", <<<<"name", "y">>, <<"type", "xs:string">>>>),
  E(2, "attributeGroup", <<<<"ref", "a:A2">>>>),
  E(1, "attributeGroup", <<<<"name", "A2">>>>),
  E(2, "attribute", <<<<"name", "z">>, <<"type", "a:S2">>>>) >>

ArrayDoc == <<
  E(0, "schema", <<<<"targetNamespace", "urn:a">>>>),
  E(1, "complexType", <<<<"name", "C1">>>>),
  E(2, "complexContent", <<>>),
  E(3, "restriction", <<<<"base", "soapenc:Array">>>>),
  E(4, "attribute", <<<<"ref", "soapenc:arrayType">>, <<"wsdl:arrayType", "a:C2[]">>>>),
  E(1, "complexType", <<<<"name", "C2">>>>),
  E(2, "sequence", <<>>),
  E(3, "element", <<<<"name", "a">>, <<"type", "a:C1">>>>),
  E(3, "element", <<<<"name", "b">>, <<"type", "soapenc:int">>, <<"maxOccurs", "unbounded">>>>),
  E(2, "attributeGroup", <<<<"ref", "soapenc:commonAttributes">>>>),
  E(1, "complexType", <<<<"name", "C3">>>>),
  E(2, "complexContent", <<>>),
  E(3, "restriction", <<<<"base", "soapenc:Array">>>>),
  E(4, "sequence", <<>>),
  E(5, "element", <<<<"name", "item">>, <<"type", "xs:date">>, <<"minOccurs", "0">>, <<"maxOccurs", "unbounded">>>>),
  E(4, "attribute", <<<<"ref", "soapenc:arrayType">>, <<"wsdl:arrayType", "xs:date[]">>>>),
  E(1, "element", <<<<"name", "e">>, <<"type", "a:C3">>>>) >>

WsdlDoc == <<
  E(0, "wsdl:definitions", <<<<"targetNamespace", "urn:a">>>>),
  E(1, "wsdl:types", <<>>),
  E(2, "schema", <<<<"targetNamespace", "urn:a">>, <<"elementFormDefault", "qualified">>>>),
  E(3, "element", <<<<"name", "e">>>>),
  E(4, "complexType", <<>>),
  E(5, "sequence", <<>>),
  E(6, "element", <<<<"name", "a">>, <<"type", "xs:int">>>>),
  E(6, "element", <<<<"name", "b">>, <<"type", "xs:date">>, <<"maxOccurs", "unbounded">>>>),
  E(3, "complexType", <<<<"name", "C1">>>>),
  E(4, "attribute", <<<<"name", "x">>, <<"type", "xs:string">>>>),
  E(1, "wsdl:message", <<<<"name", "in">>>>),
  E(2, "wsdl:part", <<<<"name", "body">>, <<"element", "a:e">>>>),
  E(1, "wsdl:message", <<<<"name", "out">>>>),
  E(2, "wsdl:part", <<<<"name", "r">>, <<"type", "a:C1">>>>),
  E(2, "wsdl:part", <<<<"name", "s">>, <<"type", "xs:string">>>>),
  E(1, "wsdl:portType", <<<<"name", "PT">>>>),
  E(2, "wsdl:operation", <<<<"name", "do">>>>),
  E(3, "wsdl:documentation", <<>>),
  E(3, "wsdl:input", <<<<"message", "a:in">>>>),
  E(3, "wsdl:output", <<<<"message", "a:out">>>>),
  E(1, "wsdl:binding", <<<<"name", "B">>, <<"type", "a:PT">>>>),
  E(2, "soap:binding", <<<<"style", "document">>>>),
  E(2, "wsdl:operation", <<<<"name", "do">>>>),
  E(3, "soap:operation", <<<<"soapAction", "urn:do">>>>),
  E(1, "wsdl:service", <<<<"name", "S">>>>),
  E(2, "wsdl:port", <<<<"name", "P">>, <<"binding", "a:B">>>>),
  E(3, "soap:address", <<<<"location", "http://x.test/">>>>) >>

Doc(n) == CASE n = "schema" -> SchemaDoc [] n = "array" -> ArrayDoc [] n = "wsdl" -> WsdlDoc

-----------------------------------------------------------------------------
(* Trees.                                                                   *)
Sub(t, i) == LET after == {j \in (i + 1)..Len(t) : t[j].d <= t[i].d} IN i..(IF after = {} THEN Len(t) ELSE Min(after) - 1)
Without(t, I) == [k \in 1..(Len(t) - Cardinality(I)) |-> t[IF k < Min(I) THEN k ELSE k + Cardinality(I)]]
Lift(s, by) == [k \in DOMAIN s |-> [s[k] EXCEPT !.d = @ + by]]
Cut(t, i) == SubSeq(t, i, Max(Sub(t, i)))
Insert(t, at, s) == SubSeq(t, 1, at) \o s \o SubSeq(t, at + 1, Len(t))
Attr(t, i, k) == LET hit == {j \in DOMAIN t[i].at : t[i].at[j][1] = k} IN IF hit = {} THEN "" ELSE t[i].at[Max(hit)][2]
HasAttr(t, i, k) == \E j \in DOMAIN t[i].at : t[i].at[j][1] = k
SetAttr(t, i, k, v) == IF HasAttr(t, i, k) THEN [t EXCEPT ![i].at = [j \in DOMAIN @ |-> IF @[j][1] = k THEN <<k, v>> ELSE @[j]]]
                       ELSE [t EXCEPT ![i].at = Append(@, <<k, v>>)]

Names == {"schema", "complexType", "simpleType", "element", "attribute", "group", "attributeGroup", "sequence", "choice", "all", "any",
          "simpleContent", "complexContent", "restriction", "extension", "list", "union", "enumeration", "maxLength", "annotation", "a:other",
          "wsdl:message", "wsdl:part", "wsdl:operation", "wsdl:port", "wsdl:input", "wsdl:definitions"}
Bools == {"true", "1", "false", "0", "maybe"}
Numbers == {"0", "1", "7", "unbounded", "x", "-3", "1.5"}
QNames == {"xs:int", "xs:anyType", "xs:string", "xs:zz", "a:C1", "a:C2", "a:S1", "a:S3", "a:Q", "a:zz", "a:e", "a:e2", "a:_self", "zz:q", "nope", ":", "", "soapenc:Array", "a:G", "a:A", "a:at"}
Values(k) == CASE k \in {"mixed", "abstract", "nillable"} -> Bools
               [] k \in {"minOccurs", "maxOccurs"} -> Numbers
               [] k \in {"type", "base", "itemType", "ref", "message", "element", "binding"} -> QNames
               [] k = "memberTypes" -> {"a:S1 xs:int", "xs:int", "a:zz", "xs:int a:zz", "a:C1", " "}
               [] k = "name" -> {"C1", "S1", "e2", "new", "", "_self", "_anon1", "a:b", "x y"}
               [] k = "value" -> {"3", "x", "2020-01-01", "-1", "1.5", "", "("}
               [] k = "targetNamespace" -> {"", "urn:b", "http://www.w3.org/2001/XMLSchema", "urn:a"}
               [] k = "use" -> {"required", "optional", "prohibited"}
               [] k = "wsdl:arrayType" -> {"a:C1[]", "a:C2[]", "xs:int[5]", "xs:int[][]", "[]", "", "a:zz[]", "nope[]", "xs:int", "zz:q[]"}
               [] OTHER -> {"x", ""}
Keys == {"mixed", "abstract", "nillable", "minOccurs", "maxOccurs", "type", "base", "itemType", "ref", "memberTypes", "name", "value", "targetNamespace", "use", "wsdl:arrayType", "message", "element", "binding", "default"}
\* attributes that an element is known to have
KeysOf(n) == CASE n = "complexType" -> {"name", "mixed", "abstract"} [] n = "complexContent" -> {"mixed"}
               [] n = "element" -> {"name", "ref", "type", "minOccurs", "maxOccurs", "nillable", "abstract", "default"}
               [] n = "attribute" -> {"name", "ref", "type", "use", "default", "wsdl:arrayType"}
               [] n \in {"sequence", "choice", "all", "any"} -> {"minOccurs", "maxOccurs"}
               [] n = "group" -> {"name", "ref", "minOccurs", "maxOccurs"} [] n = "attributeGroup" -> {"name", "ref"}
               [] n = "simpleType" -> {"name"} [] n \in {"restriction", "extension"} -> {"base"} [] n = "list" -> {"itemType"} [] n = "union" -> {"memberTypes"}
               [] n \in {"enumeration", "maxLength", "minInclusive", "maxExclusive", "fractionDigits"} -> {"value"}
               [] n = "schema" -> {"targetNamespace"}
               [] n = "wsdl:part" -> {"name", "type", "element"} [] n \in {"wsdl:input", "wsdl:output"} -> {"message"} [] n = "wsdl:binding" -> {"name", "type"} [] n = "wsdl:port" -> {"name", "binding"}
               [] n \in {"wsdl:message", "wsdl:portType", "wsdl:operation", "wsdl:service"} -> {"name"} [] n = "wsdl:definitions" -> {"targetNamespace"}
               [] OTHER -> {}

Init == /\ \E n \in Docs : doc = Doc(n)
        /\ cut = -1 /\ muts = 0 /\ phase = "break"
Change(new) == /\ doc' = new /\ muts' = muts + 1 /\ UNCHANGED <<cut, phase>>
Inner == 2..Len(doc)
Drop == \E i \in Pick(Inner) : Change(Without(doc, Sub(doc, i)))
Unwrap == \E i \in Pick(Inner) : Change(SubSeq(doc, 1, i - 1) \o Lift(SubSeq(doc, i + 1, Max(Sub(doc, i))), -1) \o SubSeq(doc, Max(Sub(doc, i)) + 1, Len(doc)))
Double == \E i \in Pick(Inner) : Change(Insert(doc, Max(Sub(doc, i)), Cut(doc, i)))
Move == \E i \in Pick(Inner), j \in Pick(DOMAIN doc) :
          /\ j \notin Sub(doc, i)
          /\ LET s == Lift(Cut(doc, i), doc[j].d + 1 - doc[i].d) IN
             Change(IF j < i THEN Insert(Without(doc, Sub(doc, i)), IF Max(Sub(doc, j)) >= i THEN Max(Sub(doc, j)) - Cardinality(Sub(doc, i)) ELSE Max(Sub(doc, j)), s)
                    ELSE Without(Insert(doc, Max(Sub(doc, j)), s), Sub(doc, i)))
Surround == \E i \in Pick(Inner), n \in Pick(Names) :
              Change(SubSeq(doc, 1, i - 1) \o <<E(doc[i].d, n, <<>>)>> \o Lift(Cut(doc, i), 1) \o SubSeq(doc, Max(Sub(doc, i)) + 1, Len(doc)))
Rename == \E i \in Pick(DOMAIN doc), n \in Pick(Names) : Change([doc EXCEPT ![i].n = n])
Attribute == \E i \in Pick({j \in DOMAIN doc : KeysOf(doc[j].n) # {}}) : \E k \in Pick(KeysOf(doc[i].n)) : \E v \in Pick(Values(k)) : Change(SetAttr(doc, i, k, v))
Odd == Sim /\ \E i \in Pick(DOMAIN doc), k \in Pick(Keys) : \E v \in Pick(Values(k)) : Change(SetAttr(doc, i, k, v))
Forget == \E i \in Pick({j \in DOMAIN doc : doc[j].at # <<>>}) : \E j \in Pick(DOMAIN doc[i].at) :
            Change([doc EXCEPT ![i].at = [x \in 1..(Len(@) - 1) |-> @[IF x < j THEN x ELSE x + 1]]])
\* the text ends after so many thousandths of it
Truncate == /\ Sim => RandomElement(1..12) = 1
            /\ \E c \in (IF Sim THEN {RandomElement(0..999)} ELSE {25 * k : k \in 0..39}) : cut' = c
            /\ phase' = "done" /\ muts' = muts + 1 /\ UNCHANGED doc
Stop == /\ phase = "break" /\ (Sim => muts > 0 /\ (muts = MaxMut \/ RandomElement(1..3) = 1))
        /\ phase' = "done" /\ UNCHANGED <<doc, cut, muts>>
Break == Drop \/ Unwrap \/ Double \/ Move \/ Surround \/ Rename \/ Attribute \/ Odd \/ Forget \/ Truncate
Next == (phase = "break" /\ muts < MaxMut /\ Break) \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is right and what is wrong with a document t.                       *)
Content(t, P, i) ==
  LET n == t[i].n  up == IF i = 1 THEN "" ELSE t[P[i]].n  top == i > 1 /\ P[i] = 1 IN
  CASE n = "schema" -> {"complexType", "simpleType", "element", "attribute", "group", "attributeGroup", "annotation"}
    [] n = "complexType" -> {"simpleContent", "complexContent", "sequence", "choice", "all", "group", "attribute", "attributeGroup", "annotation"}
    [] n \in {"simpleContent", "complexContent"} -> {"restriction", "extension", "annotation"}
    [] n \in {"restriction", "extension"} /\ up = "complexContent" -> {"sequence", "choice", "all", "group", "attribute", "attributeGroup", "annotation"}
    [] n = "extension" /\ up = "simpleContent" -> {"attribute", "attributeGroup", "annotation"}
    [] n = "restriction" /\ up = "simpleType" -> {"simpleType", "enumeration", "maxLength", "minInclusive", "maxExclusive", "fractionDigits", "annotation"}
    [] n \in {"sequence", "choice"} -> {"element", "group", "any", "sequence", "choice", "annotation"}
    [] n = "all" -> {"element", "annotation"}
    [] n = "element" -> {"simpleType", "complexType", "annotation"}
    [] n = "attribute" -> {"simpleType", "annotation"}
    [] n = "simpleType" -> {"restriction", "list", "union", "annotation"}
    [] n \in {"list", "union"} -> {"simpleType", "annotation"}
    [] n = "group" /\ top -> {"sequence", "choice", "all", "annotation"}
    [] n = "attributeGroup" /\ top -> {"attribute", "attributeGroup", "annotation"}
    [] OTHER -> {}

Particles == {"sequence", "choice", "all", "group"}
Members(v) == CASE v = "a:S1 xs:int" -> {"a:S1", "xs:int"} [] v = "xs:int a:zz" -> {"xs:int", "a:zz"} [] v \in {" ", ""} -> {} [] OTHER -> {v}
GoodNames == {"C1", "C2", "C3", "Q", "S1", "S2", "S3", "G", "A", "A2", "e", "e2", "at", "a", "b", "c", "f", "g", "h", "v", "w", "x", "y", "z", "new", "item"}
LocalOf == [q \in {"a:" \o n : n \in GoodNames \cup {"zz"}} |-> CHOOSE n \in GoodNames \cup {"zz"} : "a:" \o n = q]
Builtins == {"xs:int", "xs:string", "xs:date", "xs:decimal"}
Num(v) == CASE v = "0" -> 0 [] v = "1" -> 1 [] v = "" -> 1 [] v = "7" -> 7 [] OTHER -> 99

\* everything that is said about the document, computed once
Facts(t) ==
  LET N == DOMAIN t
      P == TLCEval([i \in N |-> IF i = 1 THEN 0 ELSE Max({j \in 1..(i - 1) : t[j].d = t[i].d - 1})])
      K == TLCEval([i \in N |-> {j \in N : P[j] = i}])
      n(i) == t[i].n
      at(i, k) == Attr(t, i, k)
      Active[i \in N] == IF i = 1 THEN n(i) = "schema" ELSE Active[P[i]] /\ n(i) \in Content(t, P, P[i])
      \* not what a group, an attribute declaration or a reference leaves unused
      Live[i \in N] == Active[i] /\ (i = 1 \/ (Live[P[i]] /\ ~(P[i] = 1 /\ n(i) \in {"group", "attributeGroup", "attribute"})
                                              /\ at(P[i], "ref") = ""))
      kids(i, set) == {j \in K[i] : n(j) \in set}
      named(set) == {i \in N : n(i) \in set /\ HasAttr(t, i, "name")}
      \* names whose meaning is plain
      clear == /\ at(1, "targetNamespace") = "urn:a"
               /\ \A i \in named({"complexType", "simpleType"}) : at(i, "name") \in GoodNames
               /\ \A i, j \in named({"complexType", "simpleType"}) : i # j => at(i, "name") # at(j, "name")
               /\ \A i \in kids(1, {"complexType", "simpleType"}) : HasAttr(t, i, "name")
               /\ \A i \in N : n(i) = "schema" => i = 1
      dangling(q) == \/ q \in {"xs:zz", "zz:q", "nope", ":", ""}
                     \/ q \in DOMAIN LocalOf /\ ~\E i \in N : at(i, "name") = LocalOf[q]
      only(i, set) == \A j \in K[P[i]] : n(j) \in set => j = i
      alone(i) == n(i) # "element" \/ ~\E j \in N : j # i /\ at(j, "name") = at(i, "name")
      derive == {"restriction", "extension"}
      loose == {"group", "attributeGroup"}  \* looked through wherever they are
      lost(i) ==
        CASE n(i) \in {"element", "attribute"} /\ at(i, "ref") # "" -> dangling(at(i, "ref"))
          [] n(i) \in {"group", "attributeGroup"} /\ at(i, "ref") # "" -> dangling(at(i, "ref"))
          [] n(i) \in {"element", "attribute"} /\ at(i, "type") # "" /\ K[i] = {} -> alone(i) /\ dangling(at(i, "type"))
          [] n(i) \in derive /\ n(P[i]) \in {"simpleContent", "complexContent"} -> only(i, derive) /\ only(P[i], {"simpleContent", "complexContent"}) /\ dangling(at(i, "base"))
          [] n(i) = "restriction" /\ K[i] \cap kids(i, {"simpleType"}) = {} -> only(i, {"restriction", "list", "union"}) /\ dangling(at(i, "base"))
          [] n(i) = "list" /\ kids(i, {"simpleType"}) = {} -> only(i, {"restriction", "list", "union"}) /\ dangling(at(i, "itemType"))
          [] n(i) = "union" -> \E q \in Members(at(i, "memberTypes")) : dangling(q)
          [] OTHER -> FALSE
      base == {"xs:int", "xs:decimal"}
      wrongHere(i) ==
        \/ \E k \in {"mixed", "abstract"} : n(i) = "complexType" /\ at(i, k) = "maybe"
        \/ n(i) = "complexContent" /\ at(i, "mixed") = "maybe"
        \/ n(i) = "element" /\ P[i] # 0 /\ \E k \in {"nillable", "abstract"} : at(i, "ref") = "" /\ at(i, k) = "maybe"
        \/ n(i) = "element" /\ at(i, "ref") = "" /\ at(i, "minOccurs") \in {"x", "1.5"}
           /\ n(P[i]) \in {"sequence", "all"} /\ at(P[i], "minOccurs") = "" /\ n(P[P[i]]) \in derive \cup {"complexType"}
        \/ n(i) \in {"maxLength", "fractionDigits"} /\ at(i, "value") \in {"x", "2020-01-01", "1.5", "("}
        \/ n(i) = "fractionDigits" /\ at(i, "value") = "-1"
        \/ n(i) \in {"minInclusive", "maxExclusive"} /\ kids(P[i], {"simpleType"}) = {} /\
           ((at(P[i], "base") \in base /\ at(i, "value") \in {"x", "2020-01-01", "("}) \/ (at(P[i], "base") = "xs:date" /\ at(i, "value") \in {"3", "x", "1.5", "-1", "(", ""}))
        \/ n(i) = "complexType" /\ \E j \in kids(i, {"simpleContent", "complexContent"}) : only(j, {"simpleContent", "complexContent"}) /\ kids(j, derive \cup loose) = {}
        \/ n(i) = "simpleType" /\ kids(i, {"restriction", "list", "union"} \cup loose) = {}
        \/ clear /\ lost(i)
        \/ clear /\ n(i) \in derive /\ n(P[i]) \in {"simpleContent", "complexContent"} /\ P[P[i]] # 0 /\ P[P[P[i]]] = 1
           /\ only(i, derive) /\ only(P[i], {"simpleContent", "complexContent"}) /\ at(P[P[i]], "name") # "" /\ at(i, "base") = "a:" \o at(P[P[i]], "name")
      \* references between the declarations
      Top == K[1]
      decl(set, q) == {i \in kids(1, set) : "a:" \o at(i, "name") = q}
      refs(i) == LET s == Sub(t, i) IN
                 UNION {IF n(j) \in {"group"} THEN decl({"group"}, at(j, "ref")) ELSE IF n(j) = "attributeGroup" THEN decl({"attributeGroup"}, at(j, "ref"))
                        ELSE IF n(j) \in derive THEN decl({"complexType", "simpleType"}, at(j, "base"))
                        ELSE IF n(j) = "list" THEN decl({"simpleType"}, at(j, "itemType"))
                        ELSE IF n(j) = "union" THEN UNION {decl({"simpleType"}, q) : q \in Members(at(j, "memberTypes"))} ELSE {} : j \in s}
      wider(r) == TLCEval([i \in Top |-> r[i] \cup UNION {r[j] : j \in r[i]}])
      acyclic == LET r == wider(wider(wider(TLCEval([i \in Top |-> refs(i)])))) IN \A i \in Top : i \notin r[i]
      isSimple(q) == q \in Builtins \/ decl({"simpleType"}, q) # {}
      isComplex(q) == q = "xs:anyType" \/ decl({"complexType"}, q) # {}
      content(i) == kids(i, {"simpleContent", "complexContent"})
      isQ(q) == \E i \in decl({"complexType"}, q) : kids(i, {"simpleContent"}) # {}
      boolOK(v) == v \in {"", "true", "1", "false", "0"}
      occOK(i) == /\ at(i, "minOccurs") \in {"", "0", "1", "7"} /\ at(i, "maxOccurs") \in {"", "0", "1", "7", "unbounded"}
                  /\ Num(at(i, "minOccurs")) <= Num(at(i, "maxOccurs"))
                  /\ (n(i) = "all" \/ n(P[i]) = "all") => Num(at(i, "minOccurs")) <= 1 /\ Num(at(i, "maxOccurs")) <= 1
      ordered(i) == /\ Cardinality(kids(i, Particles)) <= 1
                    /\ \A p \in kids(i, Particles), q \in kids(i, {"attribute", "attributeGroup"}) : p < q
      known(i) == \A k \in DOMAIN t[i].at : t[i].at[k][1] \in KeysOf(n(i)) \cup {"elementFormDefault"}
      fine(i) ==
        /\ known(i) /\ (i > 1 => Active[i]) /\ Cardinality(kids(i, {"annotation"})) = 0
        /\ CASE n(i) = "schema" -> at(i, "targetNamespace") = "urn:a"
             [] n(i) = "complexType" ->
                  /\ HasAttr(t, i, "name") = (P[i] = 1) /\ (P[i] = 1 => at(i, "name") \in GoodNames)
                  /\ boolOK(at(i, "mixed")) /\ boolOK(at(i, "abstract"))
                  /\ content(i) # {} => Cardinality(K[i]) = 1
                  /\ ordered(i)
             [] n(i) \in {"complexContent", "simpleContent"} -> Cardinality(K[i]) = 1 /\ boolOK(at(i, "mixed"))
             [] n(i) \in derive /\ n(P[i]) = "complexContent" -> isComplex(at(i, "base")) /\ ~isQ(at(i, "base")) /\ ordered(i)
             [] n(i) = "extension" -> isSimple(at(i, "base")) \/ isQ(at(i, "base"))
             [] n(i) = "restriction" -> (kids(i, {"simpleType"}) = {} /\ isSimple(at(i, "base"))) \/ (Cardinality(kids(i, {"simpleType"})) = 1 /\ ~HasAttr(t, i, "base"))
             [] n(i) = "list" -> (kids(i, {"simpleType"}) = {} /\ isSimple(at(i, "itemType"))) \/ (Cardinality(kids(i, {"simpleType"})) = 1 /\ ~HasAttr(t, i, "itemType"))
             [] n(i) = "union" -> (\A q \in Members(at(i, "memberTypes")) : isSimple(q)) /\ (Members(at(i, "memberTypes")) # {} \/ kids(i, {"simpleType"}) # {})
             [] n(i) = "simpleType" -> Cardinality(K[i]) = 1 /\ HasAttr(t, i, "name") = (P[i] = 1) /\ (P[i] = 1 => at(i, "name") \in GoodNames)
             [] n(i) \in {"enumeration"} -> HasAttr(t, i, "value") /\ at(P[i], "base") = "xs:string"
             [] n(i) = "maxLength" -> at(i, "value") \in {"3"} /\ at(P[i], "base") = "xs:string"
             [] n(i) = "fractionDigits" -> at(i, "value") \in {"3"} /\ at(P[i], "base") = "xs:decimal"
             [] n(i) \in {"minInclusive", "maxExclusive"} -> (at(P[i], "base") \in base /\ at(i, "value") \in {"1", "3", "-1"}) \/ (at(P[i], "base") = "xs:date" /\ at(i, "value") = "2020-01-01")
             [] n(i) \in {"sequence", "choice", "all"} -> occOK(i) /\ (n(i) = "all" => P[i] # 0 /\ n(P[i]) \notin {"group"})
             [] n(i) = "any" -> occOK(i)
             [] n(i) \in {"group", "attributeGroup"} ->
                  IF P[i] = 1 THEN /\ at(i, "name") \in GoodNames /\ ~HasAttr(t, i, "ref") /\ (n(i) = "group" => Cardinality(K[i]) = 1)
                                   /\ ~HasAttr(t, i, "minOccurs") /\ ~HasAttr(t, i, "maxOccurs")
                  ELSE K[i] = {} /\ ~HasAttr(t, i, "name") /\ (n(i) = "attributeGroup" \/ occOK(i))
                       /\ decl({n(i)}, at(i, "ref")) # {}
             [] n(i) = "element" ->
                  /\ boolOK(at(i, "nillable")) /\ boolOK(at(i, "abstract"))
                  /\ IF P[i] = 1 THEN ~HasAttr(t, i, "minOccurs") /\ ~HasAttr(t, i, "maxOccurs") /\ ~HasAttr(t, i, "ref") ELSE occOK(i)
                  /\ IF HasAttr(t, i, "ref") THEN decl({"element"}, at(i, "ref")) # {} /\ K[i] = {} /\ (\A k \in {"name", "type", "nillable", "abstract", "default"} : ~HasAttr(t, i, k))
                     ELSE at(i, "name") \in GoodNames /\ (IF HasAttr(t, i, "type") THEN K[i] = {} /\ (isSimple(at(i, "type")) \/ isComplex(at(i, "type"))) ELSE Cardinality(K[i]) <= 1)
             [] n(i) = "attribute" ->
                  /\ ~HasAttr(t, i, "wsdl:arrayType") /\ (P[i] = 1 => ~HasAttr(t, i, "use")) /\ at(i, "use") \in {"", "required", "optional"}
                  /\ IF HasAttr(t, i, "ref") THEN P[i] # 1 /\ decl({"attribute"}, at(i, "ref")) # {} /\ K[i] = {} /\ ~HasAttr(t, i, "name") /\ ~HasAttr(t, i, "type")
                     ELSE at(i, "name") \in GoodNames /\ (IF HasAttr(t, i, "type") THEN K[i] = {} /\ isSimple(at(i, "type")) ELSE Cardinality(K[i]) <= 1)
             [] OTHER -> FALSE
      unique == \A i, j \in Top : (i # j /\ at(i, "name") = at(j, "name")) => n(i) # n(j) /\ {n(i), n(j)} # {"complexType", "simpleType"}
      \* two elements or attributes of one name are more than this checks
      once == \A i, j \in N : (i # j /\ n(i) = n(j) /\ n(i) \in {"element", "attribute"} /\ P[i] # 1 /\ P[j] # 1) => (at(i, "name") # at(j, "name")) \/ (HasAttr(t, i, "ref") /\ HasAttr(t, j, "ref") /\ at(i, "ref") # at(j, "ref"))
  IN [wrong |-> \E i \in N : Live[i] /\ wrongHere(i),
      legal |-> n(1) = "schema" /\ (\A i \in N : fine(i)) /\ unique /\ once /\ acyclic]

Done == phase = "done"
Verdict == IF cut >= 0 THEN "wrong" ELSE LET f == Facts(doc) IN CASE f.wrong /\ f.legal -> "both" [] f.wrong -> "wrong" [] f.legal -> "legal" [] OTHER -> "any"
Shape == doc[1].d = 0 /\ \A i \in 2..Len(doc) : doc[i].d \in 1..(doc[i - 1].d + 1)
\* A document cannot be right and wrong, and what was not changed is right.
Judged == Done => LET v == Verdict IN
            /\ v # "both" /\ (muts = 0 /\ doc = SchemaDoc => v = "legal")
            /\ CSVWrite("%1$s", <<ToJson([k |-> "raw", doc |-> doc, cut |-> cut, verdict |-> v])>>, IOEnv.OUT)
=============================================================================
