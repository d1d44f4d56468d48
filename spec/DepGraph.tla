------------------------------ MODULE DepGraph ------------------------------
(***************************************************************************)
(* The dependency graph: a history of Add(target, dependency) calls, in    *)
(* any order and with repetitions, followed by one or more traversals.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS V, MaxAdds
VARIABLES adds, edges
vars == <<adds, edges>>

Init == adds = <<>> /\ edges = {}
Add(t, d) == /\ adds' = Append(adds, <<t, d>>) /\ edges' = edges \cup {<<t, d>>}
Next == Len(adds) < MaxAdds /\ \E t, d \in V : Add(t, d)
Spec == Init /\ [][Next]_vars

Verts == {e[1] : e \in edges} \cup {e[2] : e \in edges}
Targets == {e[1] : e \in edges}
Succ(v) == {e[2] : e \in {x \in edges : x[1] = v}}

RECURSIVE ReachFrom(_, _)
ReachFrom(S, seen) == LET new == UNION {Succ(v) : v \in S} \ seen
                      IN IF new = {} THEN seen ELSE ReachFrom(new, seen \cup new)
Reach(v) == ReachFrom({v}, {})           \* vertices reachable by >= 1 edge
OnCycle(v) == v \in Reach(v)
SameCycle(v, w) == w \in Reach(v) /\ v \in Reach(w)

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                   IN <<m>> \o Asc(S \ {m})

(* The traversal: depth-first from every target in ascending order, leaves *)
(* first; state is [seen, out].                                            *)
RECURSIVE Visit(_, _)
Visit(vs, st) ==
  IF vs = <<>> THEN st
  ELSE LET v == Head(vs) IN
       IF v \in st.seen THEN Visit(Tail(vs), st)
       ELSE LET in == Visit(Asc(Succ(v)), [st EXCEPT !.seen = @ \cup {v}])
            IN Visit(Tail(vs), [in EXCEPT !.out = Append(@, v)])
Order == Visit(Asc(Targets), [seen |-> {}, out |-> <<>>]).out

\* What any correct answer has to satisfy.
Pos(o, v) == CHOOSE i \in DOMAIN o : o[i] = v
IsTopological(o) ==
  /\ Len(o) = Cardinality(Verts) /\ {o[i] : i \in DOMAIN o} = Verts
  /\ \A e \in edges : ~SameCycle(e[1], e[2]) => Pos(o, e[2]) < Pos(o, e[1])

TopoOK == IsTopological(Order)
Emit == adds # <<>> =>
  CSVWrite("%1$s", <<ToJson([k |-> "dep", adds |-> adds, verts |-> Asc(Verts), ntargets |-> Cardinality(Targets),
        before |-> LET S == {e \in edges : ~SameCycle(e[1], e[2])} IN
           [i \in 1..Cardinality(S) |-> LET RECURSIVE nth(_, _)
                                            nth(T, k) == LET x == CHOOSE y \in T : TRUE IN IF k = 1 THEN x ELSE nth(T \ {x}, k - 1)
                                        IN nth(S, i)],
        order |-> Order])>>, IOEnv.OUT)
=============================================================================
