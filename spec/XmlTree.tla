------------------------------ MODULE XmlTree ------------------------------
(***************************************************************************)
(* The abstract semantics of package xmltree: namespace scopes, resolution *)
(* of QNames, the tree that a document denotes, queries over that tree,    *)
(* equality of trees, edits, and serialisation.                            *)
(*                                                                         *)
(* A SOURCE node is the syntax of an element:                              *)
(*   [pfx, local, decls : Seq([pfx, uri]), attrs : Seq([pfx,local,val]),   *)
(*    text, pad, kids]                                                     *)
(* A TREE node is what parsing it must yield:                              *)
(*   [ns, local, attrs : Seq([ns,local,val]), scope : Seq(frame),          *)
(*    text, pad, kids]                                                     *)
(* A scope is the sequence of declaration frames from the root to the      *)
(* element; every frame is the sequence of declarations of one tag.        *)
(* text is an atom for the raw content of a leaf; pad is an atom for the   *)
(* white space around it.  Mixed text next to child elements is outside    *)
(* of the model: the package documents that only leaf content is kept.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

XmlURI   == "http://www.w3.org/XML/1998/namespace"
XmlnsURI == "http://www.w3.org/2000/xmlns/"

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

-----------------------------------------------------------------------------
(* Namespace scopes *)

Binds(frame, p) == \E i \in DOMAIN frame : frame[i].pfx = p
FrameURI(frame, p) == frame[CHOOSE i \in DOMAIN frame : frame[i].pfx = p].uri

\* The innermost frame that binds p; 0 if there is none.
LevelOf(scope, p) ==
  LET S == {k \in DOMAIN scope : Binds(scope[k], p)}
  IN  IF S = {} THEN 0 ELSE MaxOf(S)

Bound(scope, p) == LevelOf(scope, p) # 0
URIOf(scope, p) == FrameURI(scope[LevelOf(scope, p)], p)

\* Resolve a prefix ("" is the default namespace).  An unresolved prefix
\* stands for itself and is reported as such.
Resolve(scope, p) ==
  CASE p = "xml"       -> [ns |-> XmlURI, ok |-> TRUE]
    [] p = "xmlns"     -> [ns |-> XmlnsURI, ok |-> TRUE]
    [] OTHER           -> IF Bound(scope, p)
                          THEN [ns |-> URIOf(scope, p), ok |-> TRUE]
                          ELSE [ns |-> p, ok |-> FALSE]

\* ResolveDefault(qname, dflt): an unprefixed name gets dflt, unless empty.
ResolveDefault(scope, p, dflt) ==
  IF p = "" /\ dflt # "" THEN dflt ELSE Resolve(scope, p).ns

Declared(scope) == UNION {{scope[k][i].pfx : i \in DOMAIN scope[k]} : k \in DOMAIN scope}

\* All prefixes that really denote uri here: bound, and not shadowed.
PrefixesFor(scope, uri) == {p \in Declared(scope) : URIOf(scope, p) = uri}

\* The answers Scope.Prefix may give for a name in uri, as prefixes.  The
\* default namespace is favoured; otherwise the closest prefix; a namespace
\* that is not in scope gives an unqualified name.
PrefixAnswers(scope, uri) ==
  CASE uri = ""       -> {""}
    [] uri = XmlURI   -> {"xml"}
    [] uri = XmlnsURI -> {"xmlns"}
    [] OTHER ->
        LET P == PrefixesFor(scope, uri)
        IN  IF P = {} \/ "" \in P THEN {""}
            ELSE LET d == MaxOf({LevelOf(scope, p) : p \in P})
                 IN  {p \in P : LevelOf(scope, p) = d}

\* Prefix is the inverse of Resolve on every namespace that is in scope.
PrefixInverse(scope) ==
  \A k \in DOMAIN scope : \A i \in DOMAIN scope[k] :
     LET u == scope[k][i].uri IN
     (u # "" /\ PrefixesFor(scope, u) # {}) =>
        \A p \in PrefixAnswers(scope, u) : Resolve(scope, p) = [ns |-> u, ok |-> TRUE]

JoinScope(outer, inner) == outer \o inner

\* Two scopes that resolve everything alike.
SameScope(a, b) == \A p \in Declared(a) \cup Declared(b) : Resolve(a, p) = Resolve(b, p)

-----------------------------------------------------------------------------
(* Parsing: from syntax to trees *)

ElemNS(scope, p) == IF p = "" THEN (IF Bound(scope, "") THEN URIOf(scope, "") ELSE "")
                    ELSE Resolve(scope, p).ns
\* The default namespace does not apply to attributes.
AttrNS(scope, p) == IF p = "" THEN "" ELSE Resolve(scope, p).ns

RECURSIVE ParseIn(_, _)
ParseIn(src, outer) ==
  LET scope == IF src.decls = <<>> THEN outer ELSE Append(outer, src.decls)
  IN [ns    |-> ElemNS(scope, src.pfx),
      local |-> src.local,
      attrs |-> [i \in DOMAIN src.attrs |->
                   [ns |-> AttrNS(scope, src.attrs[i].pfx),
                    local |-> src.attrs[i].local, val |-> src.attrs[i].val]],
      scope |-> scope,
      text  |-> IF src.kids = <<>> THEN src.text ELSE "",
      pad   |-> IF src.kids = <<>> THEN src.pad ELSE "",
      kids  |-> [i \in DOMAIN src.kids |-> ParseIn(src.kids[i], scope)]]

ParseDoc(src) == ParseIn(src, <<>>)

\* Namespace well-formedness of a source document: every prefix in use is
\* declared, no attribute is duplicated, no tag binds a prefix twice, and
\* only the default namespace is undeclared.
RECURSIVE WellFormedIn(_, _)
WellFormedIn(src, outer) ==
  LET scope == IF src.decls = <<>> THEN outer ELSE Append(outer, src.decls)
      an(i) == <<AttrNS(scope, src.attrs[i].pfx), src.attrs[i].local>>
  IN /\ src.pfx = "" \/ Bound(scope, src.pfx)
     /\ \A i \in DOMAIN src.attrs : src.attrs[i].pfx \in {"", "xml"} \/ Bound(scope, src.attrs[i].pfx)
     /\ \A i, j \in DOMAIN src.attrs : i # j => an(i) # an(j)
     /\ \A i, j \in DOMAIN src.decls : i # j => src.decls[i].pfx # src.decls[j].pfx
     /\ \A i \in DOMAIN src.decls : src.decls[i].uri = "" => src.decls[i].pfx = ""
     /\ \A i \in DOMAIN src.kids : WellFormedIn(src.kids[i], scope)
WellFormed(src) == WellFormedIn(src, <<>>)

-----------------------------------------------------------------------------
(* Navigation.  A path is the sequence of child indices from the root. *)

RECURSIVE At(_, _)
At(t, path) == IF path = <<>> THEN t ELSE At(t.kids[Head(path)], Tail(path))

RECURSIVE Nodes(_, _)
\* The paths of t and everything below it, in document order.
Nodes(t, here) ==
  <<here>> \o Concat([i \in DOMAIN t.kids |-> Nodes(t.kids[i], Append(here, i))])

AllPaths(t)  == Nodes(t, <<>>)
\* Flatten: every descendant, in document order; never the root itself.
Flatten(t)   == Tail(AllPaths(t))

RECURSIVE Filter(_, _)
Filter(s, T) == IF s = <<>> THEN <<>>
                ELSE (IF Head(s) \in T THEN <<Head(s)>> ELSE <<>>) \o Filter(Tail(s), T)

Matches(n, ns, local) == n.local = local /\ (ns = "" \/ n.ns = ns)
Search(t, ns, local)  ==
  LET F == Flatten(t) IN Filter(F, {p \in Range(F) : Matches(At(t, p), ns, local)})

\* Attr: the first attribute of that name; an empty space matches any.
AttrOf(n, ns, local) ==
  LET S == {i \in DOMAIN n.attrs : n.attrs[i].local = local /\ (ns = "" \/ n.attrs[i].ns = ns)}
  IN  IF S = {} THEN "" ELSE n.attrs[CHOOSE i \in S : \A j \in S : i <= j].val

-----------------------------------------------------------------------------
(* Equality: ignores white space around text, the order of siblings and of *)
(* attributes, and prefixes.                                               *)

RECURSIVE Canon(_)
Canon(t) ==
  LET ck == [i \in DOMAIN t.kids |-> Canon(t.kids[i])]
  IN [name  |-> <<t.ns, t.local>>,
      attrs |-> Range(t.attrs),
      text  |-> IF t.kids = <<>> THEN t.text ELSE "",
      kids  |-> {<<c, Cardinality({i \in DOMAIN ck : ck[i] = c})>> : c \in Range(ck)}]
EqualTrees(a, b) == Canon(a) = Canon(b)

\* What must survive serialisation: names, attributes, leaf text and order.
RECURSIVE Shape(_)
Shape(t) == [ns |-> t.ns, local |-> t.local, attrs |-> t.attrs,
             text |-> IF t.kids = <<>> THEN t.text ELSE "",
             pad  |-> IF t.kids = <<>> THEN t.pad ELSE "",
             kids |-> [i \in DOMAIN t.kids |-> Shape(t.kids[i])]]

\* The scope that serialisation has to keep intact as well: whatever prefix
\* resolved in the tree resolves to the same name in the output.
RECURSIVE ScopeKept(_, _)
ScopeKept(t, u) ==
  /\ \A p \in Declared(t.scope) : Resolve(t.scope, p).ns = Resolve(u.scope, p).ns
  /\ \A i \in DOMAIN t.kids : ScopeKept(t.kids[i], u.kids[i])

-----------------------------------------------------------------------------
(* Serialisation of a tree (which may have been edited, or be part of a    *)
(* larger document) as a self-contained document.                          *)

SomePrefix(scope, ns) == CHOOSE p \in PrefixAnswers(scope, ns) : TRUE
AttrPrefix(scope, ns) ==
  CASE ns = ""     -> ""
    [] ns = XmlURI -> "xml"
    [] OTHER -> CHOOSE p \in PrefixesFor(scope, ns) \ {""} : TRUE

\* Declarations an element needs below an element whose scope is outer.
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE
                                       IN <<x>> \o SetToSeq(S \ {x})
NeededDecls(outer, scope) ==
  SetToSeq({[pfx |-> p, uri |-> URIOf(scope, p)] :
              p \in {q \in Declared(scope) : ~(Bound(outer, q) /\ URIOf(outer, q) = URIOf(scope, q))}}
           \cup (IF Bound(outer, "") /\ ~Bound(scope, "")
                 THEN {[pfx |-> "", uri |-> ""]} ELSE {}))

RECURSIVE Unparse(_, _)
Unparse(t, outer) ==
  [pfx   |-> SomePrefix(t.scope, t.ns),
   local |-> t.local,
   decls |-> NeededDecls(outer, t.scope),
   attrs |-> [i \in DOMAIN t.attrs |-> [pfx |-> AttrPrefix(t.scope, t.attrs[i].ns),
                                        local |-> t.attrs[i].local, val |-> t.attrs[i].val]],
   text  |-> t.text, pad |-> t.pad,
   kids  |-> [i \in DOMAIN t.kids |-> Unparse(t.kids[i], t.scope)]]
MarshalDoc(t) == Unparse(t, <<>>)

\* Every name in the tree can be written with the prefixes in its scope.
RECURSIVE Expressible(_)
Expressible(t) ==
  /\ IF t.ns = "" THEN ~Bound(t.scope, "") \/ URIOf(t.scope, "") = ""
                  ELSE PrefixesFor(t.scope, t.ns) # {}
  /\ \A i \in DOMAIN t.attrs : LET n == t.attrs[i].ns IN
        n \in {"", XmlURI} \/ PrefixesFor(t.scope, n) \ {""} # {}
  /\ \A i \in DOMAIN t.kids : Expressible(t.kids[i])

RoundTrips(t) ==
  LET u == ParseDoc(MarshalDoc(t)) IN Shape(u) = Shape(t) /\ ScopeKept(t, u)

-----------------------------------------------------------------------------
(* Edits *)

RECURSIVE Update(_, _, _)
Update(t, path, new) ==
  IF path = <<>> THEN new
  ELSE [t EXCEPT !.kids[Head(path)] = Update(@, Tail(path), new)]

SetAttr(n, ns, local, val) ==
  LET S == {i \in DOMAIN n.attrs : n.attrs[i].local = local /\ (ns = "" \/ n.attrs[i].ns = ns)}
  IN  IF S = {} THEN [n EXCEPT !.attrs = Append(@, [ns |-> ns, local |-> local, val |-> val])]
      ELSE [n EXCEPT !.attrs[CHOOSE i \in S : \A j \in S : i <= j].val = val]

SetText(n, text) == [n EXCEPT !.text = text, !.pad = ""]

DropAt(s, i)      == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

\* Removing the last child leaves an empty element.
RemoveKid(n, i)    == [n EXCEPT !.kids = DropAt(@, i), !.text = "", !.pad = ""]
AddKid(n, i, kid)  == [n EXCEPT !.kids = InsertAt(@, i, kid), !.text = "", !.pad = ""]

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
=============================================================================
