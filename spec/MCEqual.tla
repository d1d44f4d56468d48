------------------------------- MODULE MCEqual -------------------------------
(***************************************************************************)
(* Pairs of documents related by a sequence of syntactic transformations,  *)
(* some of which preserve equality (white space, order, prefixes) and some *)
(* of which do not.                                                        *)
(***************************************************************************)
EXTENDS XmlTree, Json, CSV, IOUtils
CONSTANTS Catalog, MaxSteps
VARIABLES a, b, steps
vars == <<a, b, steps>>
Init == \E i \in DOMAIN Catalog : a = Catalog[i] /\ b = Catalog[i] /\ steps = <<>>

Apply(name, new) == /\ WellFormed(new) /\ new # b
                    /\ b' = new /\ a' = a /\ steps' = Append(steps, name)
P == Range(AllPaths(b))
\* reorder two sibling elements
Permute == \E p \in P : LET n == At(b, p) IN \E i, j \in DOMAIN n.kids : i < j /\
  Apply("permute", Update(b, p, [n EXCEPT !.kids[i] = n.kids[j], !.kids[j] = n.kids[i]]))
Reattr == \E p \in P : LET n == At(b, p) IN Len(n.attrs) = 2 /\
  Apply("reattr", Update(b, p, [n EXCEPT !.attrs = <<n.attrs[2], n.attrs[1]>>]))
RECURSIVE Swap(_)
\* exchange the prefixes p and q everywhere
Swap(n) ==
  LET s(x) == CASE x = "p" -> "q" [] x = "q" -> "p" [] OTHER -> x
  IN [n EXCEPT !.pfx = s(@),
               !.decls = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pfx = s(@)]],
               !.attrs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pfx = s(@)]],
               !.kids = [i \in DOMAIN @ |-> Swap(@[i])]]
Reprefix == Apply("reprefix", Swap(b))
Pad == \E p \in P : LET n == At(b, p) IN n.kids = <<>> /\ \E w \in {"l", "b"} :
  Apply("pad", Update(b, p, [n EXCEPT !.pad = w]))
Retext == \E p \in P : LET n == At(b, p) IN n.kids = <<>> /\ \E t \in {"t", "u", ""} :
  Apply("retext", Update(b, p, [n EXCEPT !.text = t]))
DropAttr == \E p \in P : LET n == At(b, p) IN \E i \in DOMAIN n.attrs :
  Apply("dropattr", Update(b, p, [n EXCEPT !.attrs = DropAt(@, i)]))
AddAttr == \E p \in P : LET n == At(b, p) IN Len(n.attrs) < 2 /\ \E x \in {"x", "y"} :
  Apply("addattr", Update(b, p, [n EXCEPT !.attrs = Append(@, [pfx |-> "", local |-> x, val |-> "1"])]))
Reval == \E p \in P : LET n == At(b, p) IN \E i \in DOMAIN n.attrs : \E v \in {"1", "e"} :
  Apply("reval", Update(b, p, [n EXCEPT !.attrs[i].val = v]))
Rename == \E p \in P : Apply("rename", Update(b, p, [At(b, p) EXCEPT !.local = "c"]))
Reelem == \E p \in P, x \in {"", "p"} : Apply("reelem", Update(b, p, [At(b, p) EXCEPT !.pfx = x]))
DropKid == \E p \in P : LET n == At(b, p) IN \E i \in DOMAIN n.kids :
  Apply("dropkid", Update(b, p, [n EXCEPT !.kids = DropAt(@, i)]))
DupKid == \E p \in P : LET n == At(b, p) IN \E i \in DOMAIN n.kids : Len(n.kids) < 4 /\
  Apply("dupkid", Update(b, p, [n EXCEPT !.kids = Append(@, n.kids[i])]))
Next == Len(steps) < MaxSteps /\
  (Permute \/ Reattr \/ Reprefix \/ Pad \/ Retext \/ DropAttr \/ AddAttr \/ Reval \/ Rename \/ Reelem \/ DropKid \/ DupKid)
Spec == Init /\ [][Next]_vars

TA == ParseDoc(a)
TB == ParseDoc(b)
Neutral == \A i \in DOMAIN steps : steps[i] \in {"permute", "reattr", "reprefix", "pad"}
NeutralOK == Neutral => EqualTrees(TA, TB)
Symmetric == EqualTrees(TA, TB) = EqualTrees(TB, TA)
Emit == CSVWrite("%1$s", <<ToJson([k |-> "equal", a |-> a, b |-> b, steps |-> steps, eq |-> EqualTrees(TA, TB)])>>, IOEnv.OUT)
=============================================================================
