-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* Builds documents token by token (Open, Text, Close), checks the         *)
(* namespace design on every one of them, and emits each complete document *)
(* with everything the package must answer about it.                       *)
(***************************************************************************)
EXTENDS XmlTree, Json, CSV, IOUtils

CONSTANTS MaxNodes, MaxDepth, MaxKids, Locals, Prefixes, DeclSets, AttrSets, Texts, Pads

VARIABLES doc,    \* sequence of [parent, node] in document order
          open,   \* stack of open positions
          leaf    \* text may still be added to the innermost open element
vars == <<doc, open, leaf>>

Node(pfx, local, decls, attrs) ==
  [pfx |-> pfx, local |-> local, decls |-> decls, attrs |-> attrs, text |-> "", pad |-> "", kids |-> <<>>]

ScopeAt(i) ==
  LET RECURSIVE up(_)
      up(k) == IF k = 0 THEN <<>>
               ELSE LET o == up(doc[k].parent) IN
                    IF doc[k].node.decls = <<>> THEN o ELSE Append(o, doc[k].node.decls)
  IN up(i)

KidsOf(i) == {k \in DOMAIN doc : doc[k].parent = i}

Init == doc = <<>> /\ open = <<>> /\ leaf = FALSE

Open == /\ Len(doc) < MaxNodes /\ Len(open) < MaxDepth
        /\ doc = <<>> \/ open # <<>>
        /\ LET parent == IF open = <<>> THEN 0 ELSE open[Len(open)] IN
           /\ parent # 0 => /\ Cardinality(KidsOf(parent)) < MaxKids
                            /\ doc[parent].node.text = "" /\ doc[parent].node.pad = ""
           /\ \E decls \in DeclSets, pfx \in Prefixes, local \in Locals, attrs \in AttrSets :
                LET n == Node(pfx, local, decls, attrs) IN
                /\ WellFormedIn(n, ScopeAt(parent))
                /\ doc' = Append(doc, [parent |-> parent, node |-> n])
        /\ open' = Append(open, Len(doc) + 1)
        /\ leaf' = TRUE

Text == /\ leaf
        /\ \E t \in Texts, p \in Pads :
             /\ <<t, p>> # <<"", "">>
             /\ doc' = [doc EXCEPT ![open[Len(open)]].node.text = t, ![open[Len(open)]].node.pad = p]
        /\ leaf' = FALSE
        /\ UNCHANGED open

Close == /\ open # <<>>
         /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ leaf' = FALSE
         /\ UNCHANGED doc

Next == Open \/ Text \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == doc # <<>> /\ open = <<>>

RECURSIVE Build(_)
Build(i) ==
  LET ks == {k \in DOMAIN doc : doc[k].parent = i}
      RECURSIVE seq(_)
      seq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                         IN <<Build(m)>> \o seq(S \ {m})
  IN [doc[i].node EXCEPT !.kids = seq(ks)]
Src == Build(1)

(* Design-level invariants, on every complete document. *)
InverseOK == Done => LET t == ParseDoc(Src) IN \A p \in Range(AllPaths(t)) : PrefixInverse(At(t, p).scope)
RoundTripOK == Done => RoundTrips(ParseDoc(Src))
\* every subtree is self-contained as well
SubtreeOK == Done => LET t == ParseDoc(Src) IN \A p \in Range(AllPaths(t)) : RoundTrips(At(t, p))
\* an element sees its ancestors' declarations and its own, nothing else
ScopeOK == Done => LET t == ParseDoc(Src) IN
   \A p \in Range(AllPaths(t)) :
      Declared(At(t, p).scope) =
        UNION {{At(Src, q).decls[i].pfx : i \in DOMAIN At(Src, q).decls} :
                q \in {r \in Range(AllPaths(t)) : IsPrefixOf(r, p)}}
EqualSelf == Done => EqualTrees(ParseDoc(Src), ParseDoc(Src))

-----------------------------------------------------------------------------
(* Emission *)
ProbePfx == {"", "p", "q", "z", "xml", "xmlns"}
ProbeURI == {"u1", "u2", "zz", "", XmlURI, XmlnsURI}
Answers(n, p) ==
  [path |-> p, ns |-> n.ns, local |-> n.local, attrs |-> n.attrs, text |-> n.text, pad |-> n.pad,
   nkids |-> Len(n.kids),
   res |-> SetToSeq({[p |-> x, r |-> Resolve(n.scope, x)] : x \in ProbePfx}),
   dfl |-> SetToSeq({[p |-> x, ns |-> ResolveDefault(n.scope, x, "dd")] : x \in ProbePfx}),
   pre |-> SetToSeq({[ns |-> u, ok |-> SetToSeq(PrefixAnswers(n.scope, u))] : u \in ProbeURI})]
Vector ==
  LET t == ParseDoc(Src)
      ps == AllPaths(t)
      names == {<<At(t, p).ns, At(t, p).local>> : p \in Range(ps)} \cup {<<"zz", "a">>}
      queries == names \cup {<<"", x[2]>> : x \in names}
  IN [k |-> "doc", src |-> Src, shape |-> Shape(t),
      nodes |-> [i \in DOMAIN ps |-> Answers(At(t, ps[i]), ps[i])],
      flat |-> Flatten(t),
      search |-> SetToSeq({[ns |-> q[1], local |-> q[2], paths |-> Search(t, q[1], q[2])] : q \in queries})]
Emit == Done => CSVWrite("%1$s", <<ToJson(Vector)>>, IOEnv.OUT)
=============================================================================
