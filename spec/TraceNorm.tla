------------------------------ MODULE TraceNorm ------------------------------
(***************************************************************************)
(* Judges the trees that Normalize makes of schema: one line per world,    *)
(* with the trees as they were observed.  In a tree, node t has the name   *)
(* t.n (elements of XML Schema only; others are left out), the attributes  *)
(* t.a, the names t.q its references resolve to and the children t.c.      *)
(***************************************************************************)
EXTENDS Xsd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rec == Trace[l]

XS == "http://www.w3.org/2001/XMLSchema"
TypeNodes == {"complexType", "simpleType"}
RECURSIVE All(_)
All(t) == {t} \cup UNION {All(t.c[i]) : i \in DOMAIN t.c}
Below(t) == UNION {All(t.c[i]) : i \in DOMAIN t.c}
Kids(t, names) == SelectSeq(t.c, LAMBDA x : x.n \in names)

\* every link is replaced by what it leads to
NoLinks(t) == \A x \in All(t) : ~x.ref
\* groups are unpacked into the types that use them
NoGroups(t) == \A i \in DOMAIN t.c : \A x \in Below(t.c[i]) : x.n \notin {"group", "attributeGroup"}
\* all types are on the top level, and have names
TopTypes(t) == \A i \in DOMAIN t.c : \A x \in Below(t.c[i]) : x.n \notin TypeNodes
TypeNames(t) == LET s == Kids(t, TypeNodes) IN [i \in DOMAIN s |-> s[i].name]
AllNames(ts, ns) == LET RECURSIVE cat(_)
                        cat(i) == IF i > Len(ts) THEN <<>> ELSE (IF ts[i].tns = ns THEN TypeNames(ts[i]) ELSE <<>>) \o cat(i + 1)
                    IN cat(1)
Unique(ts) == \A i \in DOMAIN ts : LET n == AllNames(ts, ts[i].tns) IN
  /\ \A j \in DOMAIN n : n[j] # ""
  /\ Cardinality({n[j] : j \in DOMAIN n}) = Len(n)
\* shorthand is expanded
Expanded(t) == \A x \in All(t) : x.n = "complexType" =>
  /\ Len(Kids(x, {"simpleContent", "complexContent"})) = 1
  /\ \A i \in DOMAIN x.c : x.c[i].n \in {"simpleContent", "complexContent", "annotation"}
\* declarations have a name and a type
Declared(t) == \A x \in All(t) : x.n \in {"element", "attribute"} => x.name # "" /\ x.type # ""
\* and the types they name exist
Known(ts, q) == \/ q.ns = XS
                     \/ \E i \in DOMAIN ts : ts[i].tns = q.ns /\ q.n \in {TypeNames(ts[i])[j] : j \in DOMAIN TypeNames(ts[i])}
Resolved(ts) == \A i \in DOMAIN ts : \A x \in All(ts[i]) : \A j \in DOMAIN x.q : Known(ts, x.q[j])
\* every declared type is still there under its name, and every anonymous
\* one has got one
Complete(w, ts) == \A i \in DOMAIN w :
  LET s == w[i]  n == TypeNames(ts[i])
      named == {s.decls[j].n : j \in {k \in DOMAIN s.decls : Class(s.decls[k].k) = "ty"}} IN
  /\ named \subseteq {n[j] : j \in DOMAIN n}
  /\ Len(n) = Cardinality(named) + FoldLeft(LAMBDA x, d : x + Anons(d), 0, s.decls)

Accept(r) == /\ r.error = ""
             /\ Len(r.trees) = Len(r.w)
             /\ r.extra = r.standard
             /\ \A i \in DOMAIN r.w : r.trees[i].n = "schema" /\ r.trees[i].tns = r.w[i].ns
             /\ \A i \in DOMAIN r.trees : LET t == r.trees[i] IN
                  NoLinks(t) /\ NoGroups(t) /\ TopTypes(t) /\ Expanded(t) /\ Declared(t)
             /\ Unique(r.trees)
             /\ Resolved(r.trees)
             /\ Complete(r.w, r.trees)

Init == l = 1
Next == l <= Len(Trace) /\ (Accept(Rec) = TRUE) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
