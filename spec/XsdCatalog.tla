------------------------------ MODULE XsdCatalog ------------------------------
(* The values that schema are written with.                                   *)
EXTENDS MCXsd
St(f, b, fac, mem) == [D0 EXCEPT !.k = "st", !.form = f, !.base = b, !.mem = mem,
                                 !.fac = [i \in DOMAIN fac |-> [f |-> "enumeration", v |-> fac[i]]]]
Ct(f, b, toks, ats) == [D0 EXCEPT !.k = "ct", !.form = f, !.base = b, !.toks = toks, !.ats = ats]
S(kids) == <<Open("sequence", -1, -1)>> \o kids \o <<Close>>

aInt   == Anon(St("restr", B("int"), <<>>, <<>>))
aEnum  == Anon(St("restr", B("string"), <<"x", "y">>, <<>>))
aList  == Anon(St("list", aEnum, <<>>, <<>>))
aUnion == Anon(St("union", NoType, <<>>, <<B("int"), aEnum, aInt>>))
aDeep  == Anon(St("restr", aList, <<>>, <<>>))
aS3(ns) == Anon(St("restr", N(ns, "S3"), <<>>, <<>>))
aC     == Anon(Ct("short", NoType, S(<<El("b", B("string"), -1, -1)>>), <<>>))
aNest  == Anon(Ct("short", NoType, S(<<El("c", aEnum, 0, -1), El("C1", aC, -1, 99), El("f", aList, -1, -1)>>), <<At("x", aEnum, "", "")>>))
aExt(ns) == Anon(Ct("cext", N(ns, "C3"), S(<<El("d", B("int"), -1, -1)>>), <<At("x", B("int"), "required", "")>>))
aChoice == Anon(Ct("short", NoType, <<Open("choice", -1, 99), El("b", B("string"), -1, -1), El("c", aUnion, -1, -1), Close>>, <<>>))
aSext(ns) == Anon(Ct("sext", N(ns, "S3"), <<>>, <<At("x", aInt, "", "")>>))

BuiltinsUsed == {B("string"), B("int"), B("boolean"), B("date"), B("NMTOKENS"), B("unsignedByte"), B("anyURI")}
SimplesA == BuiltinsUsed \cup {aInt, aEnum, aList, aUnion, aDeep} \cup {N("urn:a", "S2"), N("urn:a", "S3"), N("urn:b", "S3")} \cup {aS3("urn:a"), aS3("urn:b")}
ElTypesA == BuiltinsUsed \cup {NoType, B("anyType"), aInt, aEnum, aList, aUnion, aDeep, aS3("urn:b"), aC, aNest, aExt("urn:a"), aExt("urn:b"), aChoice, aSext("urn:a")}
            \cup {N(ns, n) : ns \in {"urn:a", "urn:b"}, n \in {"C1", "C2", "S1", "S3", "Q1"}}
AtTypesA == {NoType, B("string"), B("int"), B("date"), aInt, aEnum, aList, N("urn:a", "S1"), N("urn:b", "S3"), N("urn:a", "S3")}
OccursA == {<<-1, -1>>, <<0, -1>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 5>>, <<0, 99>>, <<-1, 99>>}
CompOccursA == {<<-1, -1>>, <<1, 1>>, <<0, 1>>, <<0, -1>>, <<-1, 99>>, <<0, 99>>, <<2, 3>>}
NoCompOccurs == {<<-1, -1>>}
FacsA == {<<"enumeration", "x">>, <<"enumeration", "y">>, <<"enumeration", "">>, <<"pattern", "[a-z]+">>, <<"pattern", "[0-9]{2}">>, <<"pattern", "bad">>,
          <<"length", "4">>, <<"minLength", "2">>, <<"maxLength", "9">>, <<"totalDigits", "5">>, <<"fractionDigits", "2">>, <<"whiteSpace", "collapse">>}
MixesA == {<<"", "", FALSE>>, <<"true", "", FALSE>>, <<"false", "", TRUE>>, <<"", "true", FALSE>>, <<"true", "false", FALSE>>, <<"", "false", FALSE>>, <<"true", "true", TRUE>>, <<"1", "", FALSE>>}
\* small sets for exhaustive configurations
ElTypes1 == {B("string")}
ElTypesN == {N("urn:a", "C2"), N("urn:b", "C1"), aNest, aC, NoType}
SimplesN == {B("int"), N("urn:b", "S3"), aEnum, aUnion}
Occurs2 == {<<-1, -1>>, <<0, -1>>, <<-1, 99>>}
Occurs1 == {<<-1, -1>>}
Mixes4 == {<<"", "", FALSE>>, <<"true", "", FALSE>>, <<"", "true", FALSE>>, <<"true", "false", FALSE>>}
Mixes2 == {<<"", "", FALSE>>, <<"", "true", FALSE>>}
Mixes1 == {<<"", "", FALSE>>}
NoFacs == {}
NotesSim == 3
Notes2 == 2
Notes1 == 1
TwoNotes == {"text", "app"}
FewNotes == {"text", "app", "xsd", "empty"}
AtTypes1 == {B("int")}
Atype0 == {}
=============================================================================
