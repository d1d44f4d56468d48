------------------------------ MODULE MCScopes ------------------------------
(***************************************************************************)
(* Histories of JoinScope.  Scopes are values: no join may change what any *)
(* scope obtained earlier resolves to, and the inner scope wins.           *)
(***************************************************************************)
EXTENDS XmlTree, Json, CSV, IOUtils
CONSTANTS Docs, MaxJoins
VARIABLES pick, scopes, ops, log
vars == <<pick, scopes, ops, log>>

Base(d) == LET t == ParseDoc(d) IN LET ps == AllPaths(t) IN [i \in DOMAIN ps |-> At(t, ps[i]).scope]
Probe == {"", "p", "q", "z", "xml"}
Row(s) == SetToSeq({[p |-> x, r |-> Resolve(s, x)] : x \in Probe})
Table(ss) == [i \in DOMAIN ss |-> Row(ss[i])]

Init == /\ pick \in DOMAIN Docs
        /\ scopes = Base(Docs[pick]) /\ ops = <<>> /\ log = <<Table(scopes)>>
Join == /\ Len(ops) < MaxJoins
        /\ \E i, j \in DOMAIN scopes :
             /\ Len(scopes[i]) + Len(scopes[j]) <= 12
             /\ scopes' = Append(scopes, JoinScope(scopes[i], scopes[j]))
             /\ ops' = Append(ops, <<i, j>>)
        /\ log' = Append(log, Table(scopes'))
        /\ UNCHANGED pick
Next == Join
Spec == Init /\ [][Next]_vars
\* a join is the outer scope overridden by the inner one
JoinOK == \A k \in DOMAIN ops :
  LET r == scopes[Len(scopes) - Len(ops) + k]  o == scopes[ops[k][1]]  n == scopes[ops[k][2]] IN
  \A p \in Probe : Resolve(r, p) = IF Bound(n, p) THEN Resolve(n, p) ELSE Resolve(o, p)
Immutable == [][\A i \in DOMAIN scopes : scopes'[i] = scopes[i]]_vars
Emit == Len(ops) = MaxJoins =>
  CSVWrite("%1$s", <<ToJson([k |-> "join", doc |-> Docs[pick], ops |-> ops, log |-> log])>>, IOEnv.OUT)
=============================================================================
