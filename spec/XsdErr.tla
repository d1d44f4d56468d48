------------------------------- MODULE XsdErr -------------------------------
(***************************************************************************)
(* Which worlds have to be rejected: those with a reference to something   *)
(* that is not declared, and those where a group, attribute group or type  *)
(* is made of itself.  Worlds are all ordered choices from a catalog of    *)
(* declarations.                                                           *)
(***************************************************************************)
EXTENDS XsdCatalog
CONSTANTS MaxDecls, Catalog

Groups(d, p) == {<<d.toks[i].ns, d.toks[i].n>> : i \in {j \in DOMAIN d.toks : d.toks[j].p = p}}
AttGroups(d) == {<<d.ats[i].ns, d.ats[i].n>> : i \in {j \in DOMAIN d.ats : d.ats[j].a = "agref"}}
RECURSIVE Derived(_)
Derived(t) == CASE t.t = "n" -> {<<t.ns, t.n>>} [] t.t = "a" -> Derived(t.d[1].base) [] OTHER -> {}
Step(d) == CASE d.k = "gr" -> {<<"gr", x[1], x[2]>> : x \in Groups(d, "gref")}
             [] d.k = "ag" -> {<<"ag", x[1], x[2]>> : x \in AttGroups(d)}
             [] Class(d.k) = "ty" -> {<<"ty", x[1], x[2]>> : x \in Derived(d.base)}
             [] OTHER -> {}
Nodes(world) == {<<Class(world[s[1]].decls[s[2]].k), world[s[1]].ns, world[s[1]].decls[s[2]].n>> : s \in Sites(world)}
RECURSIVE Reach(_, _)
Reach(world, from) ==
  LET more == from \cup UNION {Step(Get(world, x[1], x[2], x[3])) : x \in from \cap Nodes(world)} IN
  IF more = from THEN from ELSE Reach(world, more)
Circular(world) == \E x \in Nodes(world) : x \in Reach(world, Step(Get(world, x[1], x[2], x[3])))

\* Types of attributes and groups count when a type or element uses those.
Roots(world) == {x \in Nodes(world) : x[1] \in {"ty", "el"}}
\* Anonymous types are types wherever they are written.
AnonRefs(d) == LET one(t) == IF t.t = "a" THEN RefsOf(t.d[1]) ELSE {} IN
  one(d.ty) \cup UNION {one(d.toks[i].ty) : i \in DOMAIN d.toks} \cup UNION {one(d.ats[i].ty) : i \in DOMAIN d.ats}
RECURSIVE Used(_, _)
Used(world, from) ==
  LET more == from \cup UNION {RefsOf(Get(world, x[1], x[2], x[3])) : x \in from \cap Nodes(world)} IN
  IF more = from THEN from ELSE Used(world, more)
Dangling(world) == Missing(world) \ {x \in Missing(world) : x[1] = "ty" /\ x \notin Used(world, Roots(world) \cup UNION {AnonRefs(world[s[1]].decls[s[2]]) : s \in Sites(world)})}
Rejected(world) == Dangling(world) # {} \/ Circular(world)
Distinct(world) == \A s, t \in Sites(world) : s # t => ~Declares(world, t, Class(world[s[1]].decls[s[2]].k), world[s[1]].ns, world[s[1]].decls[s[2]].n)

InitE == /\ \E st \in Styles : w = <<[ns |-> "urn:a", style |-> st, decls |-> <<>>], [ns |-> "urn:b", style |-> st, decls |-> <<>>]>>
         /\ cur = None /\ nest = <<>> /\ wrap \in Wraps /\ phase = "build" /\ goal = 0
AddDecl == /\ Cardinality(Sites(w)) < MaxDecls
           /\ \E c \in Catalog : w' = [w EXCEPT ![c[1]].decls = Append(@, c[2])]
           /\ Distinct(w')
           /\ UNCHANGED <<cur, nest, wrap, phase, goal>>
SpecE == InitE /\ [][AddDecl]_vars

\* More declarations never make a circular world acceptable.
Monotone == [][Circular(w) => Circular(w')]_vars
VectorE == [k |-> "xsd", w |-> w, wrap |-> wrap, error |-> Rejected(w), plain |-> TRUE]
EmitE == CSVWrite("%1$s", <<ToJson(VectorE)>>, IOEnv.OUT)

G(n, toks) == [D0 EXCEPT !.k = "gr", !.n = n, !.form = "-", !.toks = S(toks)]
AG(n, ats) == [D0 EXCEPT !.k = "ag", !.n = n, !.form = "-", !.ats = ats]
C(n, f, b, toks, ats) == [D0 EXCEPT !.k = "ct", !.n = n, !.form = f, !.base = b, !.toks = toks, !.ats = ats]
ST(n, f, b, mem) == [D0 EXCEPT !.k = "st", !.n = n, !.form = f, !.base = b, !.mem = mem]
EL(n, ty) == [D0 EXCEPT !.k = "el", !.n = n, !.form = "-", !.ty = ty]
AT(n, ty) == [D0 EXCEPT !.k = "at", !.n = n, !.form = "-", !.ty = ty]
a == "urn:a"
b == "urn:b"
CatalogA ==
  { <<1, G("G1", <<GrpRef(a, "G2", -1, -1)>>)>>, <<1, G("G2", <<GrpRef(a, "G1", -1, -1)>>)>>, <<1, G("G2", <<El("x", B("int"), -1, -1)>>)>>,
    <<1, G("G1", <<GrpRef(a, "G1", -1, -1)>>)>>, <<1, G("G1", <<GrpRef(b, "G2", -1, -1)>>)>>, <<2, G("G2", <<GrpRef(a, "G1", -1, -1)>>)>>,
    <<1, G("G1", <<Ref(b, "e", -1, -1)>>)>>,
    <<1, AG("A1", <<AgRef(a, "A1")>>)>>, <<1, AG("A1", <<AgRef(b, "A2")>>)>>, <<2, AG("A2", <<AgRef(a, "A1")>>)>>, <<2, AG("A2", <<At("x", B("int"), "", "")>>)>>,
    <<1, AG("A1", <<AtRef(b, "t", "")>>)>>, <<2, AT("t", B("int"))>>,
    <<1, C("C1", "cext", N(a, "C2"), <<>>, <<>>)>>, <<1, C("C2", "cext", N(a, "C1"), <<>>, <<>>)>>, <<1, C("C2", "short", NoType, <<>>, <<>>)>>,
    <<1, C("C1", "cext", N(a, "C1"), <<>>, <<>>)>>, <<1, C("C1", "crestr", N(b, "C2"), <<>>, <<>>)>>, <<2, C("C2", "crestr", N(a, "C1"), <<>>, <<>>)>>,
    <<1, C("C3", "short", NoType, S(<<El("x", N(a, "C3"), 0, -1)>>), <<>>)>>, <<1, C("C3", "short", NoType, S(<<El("x", N(b, "C2"), 0, -1)>>), <<>>)>>,
    <<1, C("C3", "short", NoType, S(<<Ref(b, "e", 0, -1)>>), <<>>)>>, <<1, C("C3", "short", NoType, S(<<GrpRef(a, "G1", 0, -1)>>), <<AgRef(a, "A1")>>)>>,
    <<1, C("C3", "short", NoType, <<>>, <<At("x", N(b, "S1"), "", "")>>)>>, <<1, C("C3", "short", NoType, <<>>, <<AtRef(b, "t", "")>>)>>,
    <<1, C("C3", "sext", N(b, "S1"), <<>>, <<>>)>>,
    <<1, EL("e", Anon(Ct("short", NoType, S(<<Ref(a, "e", 0, 1)>>), <<>>)))>>, <<2, EL("e", N(a, "C1"))>>, <<2, EL("e", N(b, "S1"))>>,
    <<2, EL("e", Anon(Ct("cext", N(a, "C1"), S(<<Ref(b, "e", 0, 1)>>), <<>>)))>>,
    <<2, ST("S1", "restr", B("int"), <<>>)>>, <<2, ST("S1", "restr", N(a, "S2"), <<>>)>>, <<1, ST("S2", "restr", N(b, "S1"), <<>>)>>,
    <<2, ST("S1", "restr", Anon(St("restr", N(b, "S1"), <<>>, <<>>)), <<>>)>>, <<1, ST("S2", "list", N(b, "S1"), <<>>)>>,
    <<1, ST("S2", "union", NoType, <<B("int"), N(b, "S1")>>)>>, <<2, AT("t", N(b, "S1"))>>, <<2, AT("t", Anon(St("restr", N(b, "S1"), <<>>, <<>>)))>> }
=============================================================================
