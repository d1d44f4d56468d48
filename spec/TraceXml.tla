------------------------------ MODULE TraceXml ------------------------------
(***************************************************************************)
(* Judges recorded runs of the real package: one line per document, with   *)
(* the document and every answer that was observed.  PROP selects which    *)
(* answers are looked at.                                                  *)
(***************************************************************************)
EXTENDS XmlTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLE l

Rec == Trace[l]

\* Values that are the same string must be the same atom: "" and "e".
NV(v) == IF v = "" THEN "e" ELSE v
RECURSIVE Norm(_)
Norm(t) == [ns |-> t.ns, local |-> t.local,
            attrs |-> [i \in DOMAIN t.attrs |-> [ns |-> t.attrs[i].ns, local |-> t.attrs[i].local, val |-> NV(t.attrs[i].val)]],
            text |-> t.text, pad |-> t.pad, kids |-> [i \in DOMAIN t.kids |-> Norm(t.kids[i])]]

ShapeOK(r, t) == Norm(r.shape) = Norm(Shape(t))

NamesOK(r, t) ==
  /\ ShapeOK(r, t)
  /\ Len(r.nodes) = Len(AllPaths(t))
  /\ \A i \in DOMAIN r.nodes :
       LET n == r.nodes[i]  s == At(t, n.path).scope IN
       /\ n.path = AllPaths(t)[i]
       /\ \A j \in DOMAIN n.res : Resolve(s, n.res[j].p) = n.res[j].r

PrefixOK(r, t) ==
  \A i \in DOMAIN r.nodes :
     LET n == r.nodes[i]  s == At(t, n.path).scope IN
     /\ PrefixInverse(s)
     /\ \A j \in DOMAIN n.pre : n.pre[j].l = "n" /\ n.pre[j].p \in PrefixAnswers(s, n.pre[j].ns)

SearchOK(r, t) ==
  /\ r.flat = Flatten(t)
  /\ \A i \in DOMAIN r.search : r.search[i].paths = Search(t, r.search[i].ns, r.search[i].local)

BackOK(r, t) == ShapeOK(r, t) /\ RoundTrips(t) /\ Norm(r.back) = Norm(Shape(t))

Accept(r) ==
  /\ WellFormed(r.src)
  /\ r.error = ""
  /\ LET t == ParseDoc(r.src) IN
     CASE Prop = "C01" -> NamesOK(r, t)
       [] Prop = "C02" -> PrefixOK(r, t)
       [] Prop = "C03" -> BackOK(r, t)
       [] Prop = "C05" -> SearchOK(r, t)

Init == l = 1
Next == l <= Len(Trace) /\ (Accept(Rec) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
