------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* Histories of edits on two parsed documents.  After every step the       *)
(* serialisation of each tree, parsed again, must be that tree.            *)
(***************************************************************************)
EXTENDS XmlTree, Json, CSV, IOUtils

CONSTANTS Catalog,   \* sequence of source documents
          MaxOps, Vals, TextsE, LocalsE, MaxSize

VARIABLES picks, trees, ops, log
vars == <<picks, trees, ops, log>>

Init == /\ picks \in {<<i, j>> \in (DOMAIN Catalog) \X (DOMAIN Catalog) : i <= j}
        /\ trees = [d \in 1..2 |-> ParseDoc(Catalog[picks[d]])]
        /\ ops = <<>> /\ log = <<>>

Paths(d) == Range(AllPaths(trees[d]))
NSHere(n)  == {u \in {"", "u1", "u2"} : u = "" \/ PrefixesFor(n.scope, u) \ {""} # {}}

RECURSIVE Eff(_)
\* what is observed of a tree: shape and effective scope of every node
Eff(t) == [shape |-> Shape(t),
           scopes |-> LET ps == AllPaths(t) IN
              [i \in DOMAIN ps |->
                 [path |-> ps[i],
                  res |-> SetToSeq({[p |-> x, ns |-> Resolve(At(t, ps[i]).scope, x).ns] :
                                     x \in Declared(At(t, ps[i]).scope)})]]]

Done(op, new, d) == /\ trees' = [trees EXCEPT ![d] = new]
                    /\ ops' = Append(ops, op)
                    /\ log' = Append(log, Eff(new))
                    /\ UNCHANGED picks

DoSetAttr == \E d \in 1..2 : \E p \in Paths(d) : LET n == At(trees[d], p) IN
   \E u \in NSHere(n), l \in LocalsE, v \in Vals :
      Done([op |-> "setattr", d |-> d, path |-> p, ns |-> u, local |-> l, val |-> v],
           Update(trees[d], p, SetAttr(n, u, l, v)), d)

DoSetText == \E d \in 1..2 : \E p \in Paths(d) : LET n == At(trees[d], p) IN
   /\ n.kids = <<>>
   /\ \E x \in TextsE \ {n.text} :
      Done([op |-> "settext", d |-> d, path |-> p, text |-> x], Update(trees[d], p, SetText(n, x)), d)

DoRename == \E d \in 1..2 : \E p \in Paths(d) : LET n == At(trees[d], p) IN
   \E u \in {"u1", "u2"}, l \in LocalsE :
      /\ PrefixesFor(n.scope, u) # {} /\ <<u, l>> # <<n.ns, n.local>>
      /\ Done([op |-> "rename", d |-> d, path |-> p, ns |-> u, local |-> l],
              Update(trees[d], p, [n EXCEPT !.ns = u, !.local = l]), d)

DoRemove == \E d \in 1..2 : \E p \in Paths(d) : LET n == At(trees[d], p) IN
   \E i \in DOMAIN n.kids :
      Done([op |-> "remove", d |-> d, path |-> p, i |-> i], Update(trees[d], p, RemoveKid(n, i)), d)

\* copy (a deep copy) of any element into any place of either document
DoGraft == \E d, e \in 1..2 : \E p \in Paths(d), q \in Paths(e) : LET n == At(trees[e], q) IN
   \E i \in 1..(Len(n.kids) + 1) :
      /\ Len(AllPaths(trees[e])) + Len(Nodes(At(trees[d], p), <<>>)) <= MaxSize
      /\ Done([op |-> "graft", d |-> d, path |-> p, e |-> e, to |-> q, i |-> i],
              Update(trees[e], q, AddKid(n, i, At(trees[d], p))), e)

DoSwap == \E d \in 1..2 : \E p \in Paths(d) : LET n == At(trees[d], p) IN
   \E i, j \in DOMAIN n.kids : i < j
      /\ Done([op |-> "swap", d |-> d, path |-> p, i |-> i, j |-> j],
              Update(trees[d], p, [n EXCEPT !.kids[i] = n.kids[j], !.kids[j] = n.kids[i]]), d)

\* serialise any element, parse that, and go on with the result
DoReload == \E d \in 1..2 : \E p \in Paths(d) :
      Done([op |-> "reload", d |-> d, path |-> p], ParseDoc(MarshalDoc(At(trees[d], p))), d)

Next == /\ Len(ops) < MaxOps
        /\ DoSetAttr \/ DoSetText \/ DoRename \/ DoRemove \/ DoGraft \/ DoSwap \/ DoReload
Spec == Init /\ [][Next]_vars

AllExpressible == \A d \in 1..2 : Expressible(trees[d])
AllRoundTrip   == \A d \in 1..2 : RoundTrips(trees[d])
\* the scope of an element never depends on edits made elsewhere
Stable == \A d \in 1..2 : \A p \in Paths(d) : PrefixInverse(At(trees[d], p).scope)

Emit == Len(ops) = MaxOps =>
  CSVWrite("%1$s", <<ToJson([k |-> "edit", docs |-> <<Catalog[picks[1]], Catalog[picks[2]]>>,
                             ops |-> ops, log |-> log])>>, IOEnv.OUT)
=============================================================================
