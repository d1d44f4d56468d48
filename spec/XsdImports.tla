----------------------------- MODULE XsdImports -----------------------------
(***************************************************************************)
(* Which schema a document asks for: one entry for each import and include *)
(* of each schema in it.  Documents are written statement by statement.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxSchemas, MaxStmts, Kinds, NSs, Locs
VARIABLES schemas, wrap
vars == <<schemas, wrap>>

Init == wrap \in {TRUE, FALSE} /\ schemas = <<>>
NewSchema == /\ Len(schemas) < MaxSchemas /\ (~wrap => schemas = <<>>)
             /\ \E ns \in NSs, st \in {"p", "d"} : schemas' = Append(schemas, [ns |-> ns, style |-> st, stmts |-> <<>>])
             /\ UNCHANGED wrap
Total == LET RECURSIVE sum(_)
             sum(i) == IF i = 0 THEN 0 ELSE Len(schemas[i].stmts) + sum(i - 1)
         IN sum(Len(schemas))
\* "decoy" and "text" only look like imports: an element of another
\* namespace, and a comment
Write == /\ schemas # <<>> /\ Total < MaxStmts
         /\ \E s \in Kinds, ns \in NSs, loc \in Locs :
              /\ (s # "import" => ns = CHOOSE x \in NSs : TRUE)
              /\ schemas' = [schemas EXCEPT ![Len(schemas)].stmts = Append(@, [s |-> s, ns |-> ns, loc |-> loc])]
         /\ UNCHANGED wrap
Next == NewSchema \/ Write
Spec == Init /\ [][Next]_vars

Entry(sc, x) == CASE x.s = "import" -> <<[ns |-> x.ns, loc |-> x.loc]>>
                  [] x.s = "include" -> <<[ns |-> sc.ns, loc |-> x.loc]>>
                  [] OTHER -> <<>>
Refs == LET RECURSIVE st(_, _) RECURSIVE sc(_)
            st(c, i) == IF i > Len(c.stmts) THEN <<>> ELSE Entry(c, c.stmts[i]) \o st(c, i + 1)
            sc(i) == IF i > Len(schemas) THEN <<>> ELSE st(schemas[i], 1) \o sc(i + 1)
        IN sc(1)
\* nothing that was asked for is forgotten when more is written
Grows == [][\A i \in 1..Len(Refs) : Len(Refs') >= Len(Refs)]_vars
Emit == schemas # <<>> => CSVWrite("%1$s", <<ToJson([k |-> "imports", schemas |-> schemas, wrap |-> wrap, refs |-> Refs])>>, IOEnv.OUT)
=============================================================================
