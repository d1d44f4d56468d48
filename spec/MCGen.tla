-------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* Writes schema as MCXsd does, then chooses a configuration and emits the *)
(* Go structures that have to be generated, with instances of them.        *)
(***************************************************************************)
EXTENDS XsdCatalog, XsdGen

CONSTANTS Select,   \* TRUE: choose namespaces, types and ignored names
          Insts,    \* how many instances of each structure
          Spoiled   \* how many documents that are no instance of it
VARIABLE cfg
gvars == <<vars, cfg>>

\* builtin types with a value of their own in Go; a list has no lists in it
AtomsG == {B(n) : n \in {"string", "int", "boolean", "date", "dateTime", "time", "base64Binary", "hexBinary", "decimal", "double", "float", "long",
                         "unsignedByte", "byte", "unsignedInt", "unsignedLong", "unsignedShort", "short", "integer", "nonNegativeInteger", "positiveInteger",
                         "negativeInteger", "nonPositiveInteger", "NCName", "IDREF", "ID", "anyURI", "token", "gDay", "gMonth", "gMonthDay", "gYear",
                         "gYearMonth", "duration", "language", "Name", "NMTOKEN", "ENTITY", "normalizedString", "QName"}}
gList  == Anon(St("list", B("int"), <<>>, <<>>))
gListD == Anon(St("list", B("date"), <<>>, <<>>))
gListB == Anon(St("list", B("boolean"), <<>>, <<>>))
gSub   == Anon(St("restr", gList, <<>>, <<>>))
gLists == {Anon(St("list", B(n), <<>>, <<>>)) : n \in {"double", "decimal", "float", "long", "unsignedLong", "byte", "unsignedInt", "hexBinary", "base64Binary",
                                                     "dateTime", "time", "NCName", "string", "short", "gMonthDay", "anyURI"}}
SimplesG == AtomsG \cup {aInt, aEnum, aUnion} \cup {N("urn:a", "S2"), N("urn:a", "S3"), N("urn:b", "S3")}
gC(f, b, kids, ats) == Anon(Ct(f, b, S(kids), ats))
gDates == gC("short", NoType, <<El("b", B("date"), 0, 1), El("c", B("hexBinary"), 0, 1), El("value", aEnum, -1, -1)>>, <<At("x", B("time"), "", "")>>)
gTree  == gC("short", NoType, <<El("a", N("urn:a", "C1"), 0, -1), El("b", N("urn:a", "C1"), 0, 99), El("c", N("urn:a", "C2"), 0, -1)>>, <<>>)
ElTypesG == AtomsG \cup {NoType, B("anyType"), B("NMTOKENS"), aInt, aEnum, aUnion, gList, gListD, gListB, gSub, aC, aNest, aExt("urn:a"), aChoice, aSext("urn:a"), gDates, gTree} \cup gLists
            \cup {N(ns, n) : ns \in {"urn:a", "urn:b"}, n \in {"C1", "C2", "S1", "S2", "S3", "Q1"}}
AtTypesG == AtomsG \cup gLists \cup {NoType, B("NMTOKENS"), aInt, aEnum, gList, gListD, N("urn:a", "S1"), N("urn:b", "S3"), N("urn:a", "S3")}
FacsG == {<<"enumeration", "x">>, <<"pattern", "[a-z]+">>, <<"maxLength", "9">>, <<"whiteSpace", "collapse">>}

NoCfg == [ns |-> {}, only |-> {}, allow |-> {}, ignA |-> {}, ignE |-> {}]
AllNS == {w[i].ns : i \in DOMAIN w}
DefaultIgnored == {"id", "href", "ref", "offset"}
Everything == [NoCfg EXCEPT !.ns = AllNS, !.ignA = DefaultIgnored]

GInit == Init /\ cfg = NoCfg
Configure ==
  /\ phase = "done" /\ Valid(w) /\ cfg = NoCfg
  /\ IF ~Select THEN cfg' = Everything
     ELSE \E ns \in Pick(SUBSET AllNS \ {{}}), only \in Pick({{}} \cup {{t[2]} : t \in TypeNamesOf(w)} \cup {{"C1", "S1"}, {"C2", "Q1"}}),
             al \in Pick({{}, {}} \cup {{t} : t \in TypeNamesOf(w)}), ia \in Pick({{}, {"x"}, DefaultIgnored, {"y", "z"}}), ie \in Pick({{}, {}, {"b"}, {"a", "c"}}) :
            cfg' = [ns |-> ns, only |-> only, allow |-> al, ignA |-> ia, ignE |-> ie]
  /\ phase' = "configured"
  /\ UNCHANGED <<w, cur, nest, wrap, goal>>
GNext == (Next /\ UNCHANGED cfg) \/ Configure
GSpec == GInit /\ [][GNext]_gvars

Ready2 == phase = "configured"
GDesign == Ready2 => SelectionOK(w, cfg)

GVector ==
  LET roots == Roots(w, cfg)
      st == SetToSortSeq(Structs(w, roots, cfg), LAMBDA a, b : IF a[1] # b[1] THEN a[1] = "urn:a" ELSE IF Rank(a[2]) # Rank(b[2]) THEN Rank(a[2]) < Rank(b[2]) ELSE a[2] \in {"C1", "C2", "C3"} /\ b[2] \notin {"C1", "C2", "C3"})
      fin == IF AllDistinct(w, cfg) /\ ~WithQName(w, cfg) THEN Finite(w, {}, cfg) ELSE {}
      may == Closure(w, MayRoots(w, cfg) \cup AnonNeeds(w, cfg))
      inst(t) == IF t \in fin THEN LET d == Get(w, "ty", t[1], t[2]) IN [v \in 1..Insts |-> Inst(w, t[1], d, cfg, v - 1 + IF Sim THEN 3 * RandomElement(0..3) ELSE 0, 2)] ELSE <<>>
      bads(is) == LET can == {i \in DOMAIN is : Spoilable(is[i])} IN
                  IF can = {} \/ Spoiled = 0 THEN <<>> ELSE [v \in 1..Spoiled |-> TLCEval(Spoil(is[RandomElement(can)]))]
  IN [k |-> "gen", w |-> w, wrap |-> wrap, cfg |-> cfg,
      structs |-> [i \in DOMAIN st |-> [ns |-> st[i][1], n |-> st[i][2], inst |-> inst(st[i]), bad |-> bads(inst(st[i])),
                                        doc |-> LET d == Get(w, "ty", st[i][1], st[i][2]) IN <<Lines(d.doc), Lines(d.cdoc)>>,
                                        f |-> Fields(w, st[i][1], Get(w, "ty", st[i][1], st[i][2]), cfg)]],
      \* list and union types, which are described by nothing but their documentation
      lists |-> SetToSeq({[ns |-> t[1], n |-> t[2], doc |-> Lines(Get(w, "ty", t[1], t[2]).doc)] : t \in {u \in TypeNamesOf(w) : Get(w, "ty", u[1], u[2]).form \in {"list", "union"}}}),
      may |-> [i \in 1..Cardinality(may) |-> SetToSeq(may)[i]], strict |-> FALSE,
      forms |-> IF Spoiled = 0 THEN <<>> ELSE SetToSeq({[b |-> b, re |-> Form(b)] : b \in Formed})]
GEmit == Ready2 => CSVWrite("%1$s", <<ToJson(GVector)>>, IOEnv.OUT)
=============================================================================
