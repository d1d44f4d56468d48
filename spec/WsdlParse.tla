------------------------------ MODULE WsdlParse ------------------------------
(***************************************************************************)
(* WSDL documents and what they say: definitions are written one component *)
(* at a time, in any order, with names that are looked up in the           *)
(* namespaces in scope; every service has ports, a port has a binding, a   *)
(* binding a portType, and its operations have messages.  What is read     *)
(* from it does not depend on the order, on prefixes, or on other elements *)
(* in between.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils

CONSTANTS MaxComps, Sim
VARIABLES phase, lex, doc
vars == <<phase, lex, doc>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Names == {"A", "B", "C"}
TNS == "urn:t"
Other == "urn:o"
WSDL == "http://schemas.xmlsoap.org/wsdl/"
XSD == "http://www.w3.org/2001/XMLSchema"

-----------------------------------------------------------------------------
(* Names.  The root declares t, o, x, w and, for some documents, a default;  *)
(* an element may declare one more, perhaps hiding one of these.            *)
NoDecl == [pfx |-> "-", ns |-> ""]
Decls == {NoDecl, [pfx |-> "q", ns |-> TNS], [pfx |-> "q", ns |-> Other], [pfx |-> "t", ns |-> Other], [pfx |-> "o", ns |-> TNS], [pfx |-> "", ns |-> TNS]}
RootNS(pfx) == CASE pfx = "t" -> TNS [] pfx = "o" -> Other [] pfx = "x" -> XSD [] pfx = "w" -> WSDL
                 [] pfx = "" -> (CASE lex.dflt = "wsdl" -> WSDL [] lex.dflt = "tns" -> TNS [] OTHER -> "")
NoRef == [pfx |-> "", local |-> "", decl |-> NoDecl]
\* An element of the default namespace cannot have another default.
Fits(d) == ~(d.pfx = "" /\ lex.dflt = "wsdl")
Resolve(r) == IF r.local = "" THEN <<"", "">>
              ELSE <<IF r.decl # NoDecl /\ r.decl.pfx = r.pfx THEN r.decl.ns ELSE RootNS(r.pfx), r.local>>
Ref(pfx, local, decl) == [pfx |-> pfx, local |-> local, decl |-> decl]
\* All ways to refer to a name, most of them to one of the target namespace.
Refs == {Ref(p, l, d) : p \in {"t", "o", "q", ""}, l \in Names, d \in {e \in Decls : Fits(e)}} \ {Ref("q", l, d) : l \in Names, d \in {e \in Decls : e.pfx # "q"}}
Good == {r \in Refs : Resolve(r)[1] = TNS}
\* one way to spell a name of the target namespace, and one of another
Plain(l) == Ref("t", l, NoDecl)
Elsewhere(l) == Ref("o", l, NoDecl)
PickRef == IF Sim THEN {RandomElement(IF RandomElement(1..6) = 1 THEN Refs ELSE Good)} ELSE {Plain("A"), Elsewhere("A")}

-----------------------------------------------------------------------------
Comp == [k |-> "", name |-> "", ref |-> NoRef, verb |-> "", docs |-> <<>>, parts |-> <<>>, ops |-> <<>>, ports |-> <<>>]
Names2(kind) == Names \ {doc[i].name : i \in {j \in DOMAIN doc : doc[j].k = kind}}
Growable == doc # <<>> /\ LET c == doc[Len(doc)] IN CASE c.k = "message" -> Len(c.parts) < 4 [] c.k \in {"portType", "binding"} -> Len(c.ops) < 4
                                                       [] c.k = "service" -> Len(c.ports) < 3 [] OTHER -> FALSE
Room == phase = "write" /\ Len(doc) < MaxComps /\ (Sim /\ Growable => RandomElement(1..8) = 1)
Add(c) == doc' = Append(doc, c) /\ UNCHANGED <<phase, lex>>
Latest == doc[Len(doc)]
Grow(c) == doc' = [doc EXCEPT ![Len(doc)] = c] /\ UNCHANGED <<phase, lex>>
Growing(kind) == phase = "write" /\ doc # <<>> /\ Latest.k = kind
DocsOf == IF Sim THEN {RandomElement(IF phase = "" THEN {} ELSE {<<>>, <<>>, <<"text one">>, <<"one", "two">>, <<"">>})} ELSE {<<>>}
Free(kind) == IF Sim THEN Pick(Names2(kind)) ELSE (IF kind \in {"binding", "service"} THEN {"A", "B"} ELSE {"A"}) \cap Names2(kind)

Init == /\ phase = "write" /\ doc = <<>>
        /\ lex \in IF Sim THEN [dflt : {"wsdl", "tns", "none"}, docLast : BOOLEAN, nameLast : BOOLEAN] ELSE [dflt : {"wsdl"}, docLast : {FALSE}, nameLast : {TRUE}]

Message == Room /\ Names2("message") # {} /\ \E n \in Free("message") : Add([Comp EXCEPT !.k = "message", !.name = n])
Part ==
  /\ Growing("message") /\ Len(Latest.parts) < IF Sim THEN 4 ELSE 1
  /\ \E r \in IF Sim THEN {IF RandomElement(1..2) = 1 THEN Ref("x", RandomElement({"string", "int"}), NoDecl) ELSE RandomElement(Refs)} ELSE {Plain("A")},
        el \in IF Sim THEN Pick({TRUE, FALSE}) ELSE {FALSE} :
       Grow([Latest EXCEPT !.parts = Append(@, [name |-> "p" \o ToString(Len(@)), el |-> el, ref |-> r])])

PortType == Room /\ Names2("portType") # {} /\ \E n \in Free("portType"), d \in DocsOf : Add([Comp EXCEPT !.k = "portType", !.name = n, !.docs = d])
Operation ==
  /\ Growing("portType") /\ Len(Latest.ops) < IF Sim THEN 4 ELSE 1
  /\ \E in \in PickRef, out \in IF Sim THEN PickRef ELSE {Plain("A")}, d \in DocsOf,
        shape \in IF Sim THEN {RandomElement({"both", "both", "in", "out", "fault", "none"})} ELSE {"both"} :
       Grow([Latest EXCEPT !.ops = Append(@, [name |-> "op" \o ToString(Len(@)), docs |-> d,
              in |-> IF shape \in {"out", "none"} THEN NoRef ELSE in, out |-> IF shape \in {"in", "none"} THEN NoRef ELSE out, fault |-> shape = "fault",
              kind |-> "", action |-> ""])])

Binding ==
  /\ Room /\ Names2("binding") # {}
  /\ \E n \in Free("binding"), r \in PickRef, v \in IF Sim THEN {RandomElement({"-", "-", "-", "", "GET", "get", "post", "Put"})} ELSE {"-", "get"} :
       Add([Comp EXCEPT !.k = "binding", !.name = n, !.ref = r, !.verb = v])
BindOp ==
  /\ Growing("binding") /\ Len(Latest.ops) < IF Sim THEN 4 ELSE 1
  /\ \E kind \in IF Sim THEN {RandomElement({"soap", "soap", "soap12", "http", "none"})} ELSE {"soap", "soap12"}, a \in IF Sim THEN Pick({"urn:do", "", "http://h/s?x"}) ELSE {"urn:do"},
        \* in the order of the portType or another one
        skip \in IF Sim THEN {RandomElement({0, 0, 1, 2})} ELSE {0} :
       LET n == "op" \o ToString((Len(Latest.ops) + skip) % 4) IN
       /\ \A i \in DOMAIN Latest.ops : Latest.ops[i].name # n
       /\ Grow([Latest EXCEPT !.ops = Append(@, [name |-> n, docs |-> <<>>, in |-> NoRef, out |-> NoRef, fault |-> FALSE, kind |-> kind, action |-> a])])

Service == Room /\ Names2("service") # {} /\ \E n \in Free("service"), d \in DocsOf : Add([Comp EXCEPT !.k = "service", !.name = n, !.docs = d])
Port ==
  /\ Growing("service") /\ Len(Latest.ports) < IF Sim THEN 3 ELSE 1
  /\ \E r \in PickRef, a \in IF Sim THEN {RandomElement({"soap", "soap12", "http", "none"})} ELSE {"http"} :
       Grow([Latest EXCEPT !.ports = Append(@, [name |-> "Port" \o Latest.name \o ToString(Len(@)), ref |-> r, kind |-> a,
               loc |-> IF a = "none" THEN "" ELSE "http://h/" \o Latest.name \o ToString(Len(@))])])

\* Elements that look like it but are not of WSDL, and a schema.
Noise == Room /\ Sim /\ \E n \in Pick(Names), v \in Pick({"types", "ext", "comment", "import"}) : Add([Comp EXCEPT !.k = "noise", !.name = n, !.verb = v])
Finish == phase = "write" /\ doc # <<>> /\ Len(doc) = MaxComps /\ (Sim /\ Growable => RandomElement(1..3) = 1) /\ phase' = "end" /\ UNCHANGED <<lex, doc>>
Next == Message \/ Part \/ PortType \/ Operation \/ Binding \/ BindOp \/ Service \/ Port \/ Noise \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What it says.                                                            *)
OfKind(d, kind) == SelectSeq(d, LAMBDA c : c.k = kind)
Named(d, kind, q) == {c \in ToSet(OfKind(d, kind)) : q = <<TNS, c.name>>}
MethodOf(verb) == CASE verb \in {"-", ""} -> "POST" [] verb \in {"GET", "get"} -> "GET" [] verb = "post" -> "POST" [] verb = "Put" -> "PUT"
ActionOf(b, name) == LET s == {o \in ToSet(b.ops) : o.name = name /\ o.kind \in {"soap", "soap12"}} IN
                     IF s = {} THEN "" ELSE (CHOOSE o \in s : TRUE).action
OpsOf(d, b) == LET pts == Named(d, "portType", Resolve(b.ref)) IN
               IF pts = {} THEN <<>>
               ELSE LET pt == CHOOSE p \in pts : TRUE IN
                    [i \in DOMAIN pt.ops |-> [name |-> <<TNS, pt.ops[i].name>>, docs |-> pt.ops[i].docs, action |-> ActionOf(b, pt.ops[i].name),
                                              in |-> Resolve(pt.ops[i].in), out |-> Resolve(pt.ops[i].out)]]
PortOf(d, p) == LET bs == Named(d, "binding", Resolve(p.ref)) IN
                IF bs = {} THEN [name |-> p.name, address |-> p.loc, method |-> "POST", ops |-> <<>>]
                ELSE LET b == CHOOSE x \in bs : TRUE IN
                     [name |-> p.name, address |-> p.loc, method |-> MethodOf(b.verb), ops |-> OpsOf(d, b)]
PortsOf(d) == FlattenSeq([i \in DOMAIN OfKind(d, "service") |-> LET s == OfKind(d, "service")[i] IN [j \in DOMAIN s.ports |-> PortOf(d, s.ports[j])]])
MessagesOf(d) == {[name |-> <<TNS, m.name>>,
                   parts |-> [i \in DOMAIN m.parts |-> [name |-> m.parts[i].name,
                               type |-> IF m.parts[i].el THEN <<"", "">> ELSE Resolve(m.parts[i].ref),
                               element |-> IF m.parts[i].el THEN Resolve(m.parts[i].ref) ELSE <<"", "">>]]] : m \in ToSet(OfKind(d, "message"))}
DocsOfServices(d) == SelectSeq([i \in DOMAIN OfKind(d, "service") |-> OfKind(d, "service")[i].docs], LAMBDA x : \E i \in DOMAIN x : Len(x) > 1 \/ x[i] # "")

\* The order of components of different kinds says nothing.
Grouped(d) == OfKind(d, "service") \o OfKind(d, "message") \o OfKind(d, "noise") \o OfKind(d, "portType") \o OfKind(d, "binding")
OrderSaysNothing == phase = "end" => PortsOf(doc) = PortsOf(Grouped(doc)) /\ MessagesOf(doc) = MessagesOf(Grouped(doc))
\* Nor does the way in which names are spelled.
Spell(r) == IF r.local # "" /\ Resolve(r)[1] \in {TNS, Other} THEN Ref(IF Resolve(r)[1] = TNS THEN "t" ELSE "o", r.local, NoDecl) ELSE r
Respelled == [i \in DOMAIN doc |-> [doc[i] EXCEPT !.ref = Spell(@), !.ops = [j \in DOMAIN @ |-> [@[j] EXCEPT !.in = Spell(@), !.out = Spell(@)]],
                                                  !.ports = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ref = Spell(@)]]]]
PrefixesSayNothing == phase = "end" => PortsOf(doc) = PortsOf(Respelled)
\* One port of the result for each port, and operations only through a binding and a portType.
AllPorts == phase = "end" => Len(PortsOf(doc)) = FoldSeq(LAMBDA c, n : n + Len(c.ports), 0, doc)
Emit == phase = "end" => CSVWrite("%1$s", <<ToJson([k |-> "wsdl", lex |-> lex, doc |-> doc,
          want |-> [ports |-> PortsOf(doc), messages |-> SetToSeq(MessagesOf(doc)), docs |-> DocsOfServices(doc)]])>>, IOEnv.OUT)
=============================================================================
