-------------------------------- MODULE MCXsd --------------------------------
(***************************************************************************)
(* Writes schema: opens schema documents and declarations in any order,    *)
(* adds content tokens, attributes and facets, then declares whatever is   *)
(* still missing, and emits the world with everything Parse must report.   *)
(***************************************************************************)
EXTENDS Xsd, Json, CSV, IOUtils

CONSTANTS Sim,        \* TRUE: large choices are drawn at random
          NSs, Styles, Wraps, Goals, MaxDocs, MaxToks, MaxAts, MaxNest,
          Kinds, Forms, ElNames, ElTypes, Occurs, CompOccurs, AtNames, AtTypes, SimpleTypes, Facs, MaxFacs, Mixes, CrossNS

VARIABLES w, cur, nest, wrap, phase, goal
vars == <<w, cur, nest, wrap, phase, goal>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

\* Exhaustive configurations leave out what is independent of the rest.
Defs == IF Sim THEN {"", "dv"} ELSE {""}
Flags == IF Sim THEN {TRUE, FALSE} ELSE {FALSE}

None == D0
Idle == cur = None

\* The namespaces a declaration in ns can refer to
Other(ns) == IF CrossNS THEN NSs ELSE {ns}

TypeNames(k) == CASE k = "ct" -> {"C1", "C2", "C3", "Q1", "Q2"}
                  [] k = "st" -> {"S1", "S2", "S3"}
                  [] k = "el" -> {"a", "b"}
                  [] k = "at" -> {"x", "y"}
                  [] k = "gr" -> {"G1", "G2", "G3"}
                  [] k = "ag" -> {"A1", "A2", "A3"}
Rank(n) == CASE n \in {"C1", "S1", "Q1", "G1", "A1"} -> 1
             [] n \in {"C2", "S2", "Q2", "G2", "A2"} -> 2
             [] OTHER -> 3
Below(S, n) == {m \in S : Rank(m) > Rank(n)}

Init == w = <<>> /\ cur = None /\ nest = <<>> /\ wrap \in Wraps /\ phase = "build" /\ goal \in Goals

NewDoc == /\ phase = "build" /\ Idle /\ Len(w) < MaxDocs
          /\ \E ns \in Pick(NSs), st \in Pick(Styles) :
               w' = Append(w, [ns |-> ns, style |-> st, decls |-> <<>>, doc |-> <<>>])
          /\ UNCHANGED <<cur, nest, wrap, phase, goal>>

\* Simple types that simple type n may be made from without a cycle
Usable(n) == {t \in SimpleTypes : CASE t.t = "n" -> Rank(t.n) > Rank(n)
                                   [] t.t = "a" -> \A r \in RefsOf(t.d[1]) : Rank(r[3]) > Rank(n)
                                   [] OTHER -> TRUE}
Bases(form, n, ns) ==
  CASE form = "short" -> {NoType}
    [] form \in {"cext", "crestr"} -> {B("anyType")} \cup {N(o, m) : o \in Other(ns), m \in Below({"C1", "C2", "C3"}, n)}
    [] form = "sext" -> {t \in SimpleTypes : t.t # "a"} \cup {N(o, m) : o \in Other(ns), m \in Below({"Q1", "Q2"}, n)}
    [] form = "srestr" -> {N(o, m) : o \in Other(ns), m \in Below({"Q1", "Q2"}, n)}
    [] form = "restr" -> Usable(n) \cup {N(o, m) : o \in Other(ns), m \in Below({"S1", "S2", "S3"}, n)}
    [] form = "list" -> Usable(n) \cup {N(o, m) : o \in Other(ns), m \in Below({"S1", "S2", "S3"}, n)}
    [] form = "union" -> {NoType}
    [] OTHER -> {NoType}

FormsOf(k, n) == IF k = "ct" THEN IF n \in {"Q1", "Q2"} THEN Forms \cap {"sext", "srestr"} ELSE Forms \cap {"short", "cext", "crestr"}
                 ELSE IF k = "st" THEN Forms \cap {"restr", "list", "union"} ELSE {"-"}

Ready(k, n, ns) == {f \in FormsOf(k, n) : Bases(f, n, ns) # {}}

\* cur.k # "": a declaration is being written into schema Len(w)
Start ==
  /\ phase = "build" /\ Idle /\ w # <<>>
  /\ Cardinality(Sites(w)) < goal
  /\ LET ns == w[Len(w)].ns
         unused(k) == {n \in TypeNames(k) : ~Has(w, Class(k), ns, n) /\ Ready(k, n, ns) # {}} IN
     \E k \in Pick({k \in Kinds : unused(k) # {}}) : \E n \in Pick(unused(k)) :
          \E f \in Pick(Ready(k, n, ns)) : \E b \in Pick(Bases(f, n, ns)) :
          \E m \in (IF k = "ct" THEN Pick(Mixes) ELSE {<<"", "", FALSE>>}) :
          \E ty \in (IF k = "el" THEN Pick(ElTypes) ELSE IF k = "at" THEN Pick(AtTypes) ELSE {NoType}) :
          \E def \in (IF k = "at" THEN Pick(Defs) ELSE IF k = "el" /\ ty = B("string") THEN Pick(Defs) ELSE {""}) :
          \E nil \in (IF k = "el" THEN Pick(Flags) ELSE {FALSE}) :
             cur' = [D0 EXCEPT !.k = k, !.n = n, !.form = f, !.base = b, !.mix = m[1],
                               !.ccmix = IF f \in {"cext", "crestr"} THEN m[2] ELSE "", !.abs = m[3],
                               !.ty = ty, !.def = def, !.nil = nil]
  /\ nest' = <<>>
  /\ UNCHANGED <<w, wrap, phase, goal>>

HasContent == \/ cur.k = "gr"
              \/ cur.k = "ct" /\ cur.form \in {"short", "cext", "crestr"}

OpenC ==
  /\ HasContent /\ Len(cur.toks) < MaxToks /\ Len(nest) < MaxNest
  /\ nest = <<>> => cur.toks = <<>>
  /\ \E c \in Pick(IF nest = <<>> THEN Compositors ELSE {"sequence", "choice"}) : \E o \in Pick(CompOccurs) :
       /\ (c = "all" => o[2] <= 1 /\ cur.k # "gr")
       /\ nest # <<>> => nest[1] # "all"
       \* the compositor of a group definition has no occurrence bounds
       /\ (cur.k = "gr" /\ nest = <<>>) => o = <<-1, -1>>
       /\ cur' = [cur EXCEPT !.toks = Append(@, Open(c, o[1], o[2]))]
       /\ nest' = Append(nest, c)
  /\ UNCHANGED <<w, wrap, phase, goal>>

AddEl ==
  /\ nest # <<>> /\ Len(cur.toks) < MaxToks
  /\ \E n \in Pick(IF cur.k = "gr" THEN {cur.n \o x : x \in {"a", "b"}} ELSE ElNames), o \in Pick(Occurs) :
     \E ty \in LET prev == {cur.toks[i].ty : i \in {j \in DOMAIN cur.toks : cur.toks[j].p = "el" /\ cur.toks[j].n = n}} IN
               IF prev = {} THEN Pick(ElTypes) ELSE prev :
     \E def \in (IF ty = B("string") THEN Pick(Defs) ELSE {""}) : \E nil \in Pick(Flags) :
       /\ nest[1] = "all" => o[2] <= 1
       /\ cur' = [cur EXCEPT !.toks = Append(@, [El(n, ty, o[1], o[2]) EXCEPT !.def = def, !.nil = nil])]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

AddRef ==
  /\ nest # <<>> /\ Len(cur.toks) < MaxToks /\ "el" \in Kinds
  /\ \E n \in Pick({"a", "b"}), o \in Pick(Occurs), ns \in Pick(Other(w[Len(w)].ns)) :
       /\ nest[1] = "all" => o[2] <= 1
       /\ cur' = [cur EXCEPT !.toks = Append(@, Ref(ns, n, o[1], o[2]))]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

AddGroup ==
  /\ "gr" \in Kinds /\ Len(cur.toks) < MaxToks
  /\ \/ nest # <<>> /\ nest[1] # "all"
     \/ nest = <<>> /\ cur.k = "ct" /\ HasContent /\ cur.toks = <<>>
  /\ \E ns \in Pick(Other(w[Len(w)].ns)), o \in Pick(CompOccurs) :
     \E n \in Pick(IF cur.k = "gr" THEN Below({"G1", "G2", "G3"}, cur.n) ELSE {"G1", "G2", "G3"}) :
       cur' = [cur EXCEPT !.toks = Append(@, GrpRef(ns, n, o[1], o[2]))]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

AddAny ==
  /\ nest # <<>> /\ nest[1] # "all" /\ Len(cur.toks) < MaxToks
  /\ \E o \in Pick(Occurs) : cur' = [cur EXCEPT !.toks = Append(@, AnyEl(o[1], o[2]))]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

CloseC ==
  /\ nest # <<>>
  /\ cur' = [cur EXCEPT !.toks = Append(@, Close)]
  /\ nest' = SubSeq(nest, 1, Len(nest) - 1)
  /\ UNCHANGED <<w, wrap, phase, goal>>

AddAt ==
  /\ cur.k \in {"ct", "ag"} /\ nest = <<>> /\ Len(cur.ats) < MaxAts
  /\ \/ \E n \in Pick(AtNames), ty \in Pick(AtTypes), use \in Pick({"", "required", "optional"}) :
        \E def \in (IF use = "required" THEN {""} ELSE Pick(Defs)) :
          cur' = [cur EXCEPT !.ats = Append(@, At(n, ty, use, def))]
     \/ "at" \in Kinds /\ \E n \in Pick({"x", "y"} \ {cur.ats[i].n : i \in DOMAIN cur.ats}), use \in Pick({"", "required"}), ns \in Pick(Other(w[Len(w)].ns)) :
          cur' = [cur EXCEPT !.ats = Append(@, AtRef(ns, n, use))]
     \/ "ag" \in Kinds /\ \E ns \in Pick(Other(w[Len(w)].ns)) :
        \E n \in Pick(IF cur.k = "ag" THEN Below({"A1", "A2", "A3"}, cur.n) ELSE {"A1", "A2", "A3"}) :
          cur' = [cur EXCEPT !.ats = Append(@, AgRef(ns, n))]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

AddFacet ==
  /\ cur.k = "st" /\ cur.form = "restr" /\ Len(cur.fac) < MaxFacs
  /\ \E f \in Pick(Facs) : cur' = [cur EXCEPT !.fac = Append(@, [f |-> f[1], v |-> f[2]])]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

AddMember ==
  /\ cur.k = "st" /\ cur.form = "union" /\ Len(cur.mem) < 3
  /\ \E t \in Pick(Usable(cur.n)) :
       \* named members come first in the memberTypes attribute
       /\ (t.t # "a" /\ cur.mem # <<>>) => cur.mem[Len(cur.mem)].t # "a"
       /\ cur' = [cur EXCEPT !.mem = Append(@, t)]
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>

\* Annotations, on everything that may have one.  Each text says where it is.
MaxNotes == 0
NotesUsed == NoteForms
Places == {<<"decl", 0>>} \cup (IF cur.form \in {"cext", "crestr", "sext", "srestr"} THEN {<<"content", 0>>} ELSE {})
          \cup (IF cur.form = "restr" THEN {<<"restr", 0>>} ELSE {}) \cup (IF cur.ty.t = "a" THEN {<<"type", 0>>} ELSE {})
          \cup {<<"tok", i>> : i \in {j \in DOMAIN cur.toks : cur.toks[j].p = "el"}} \cup {<<"at", i>> : i \in {j \in DOMAIN cur.ats : cur.ats[j].a = "at"}}
          \cup {<<"tokty", i>> : i \in {j \in DOMAIN cur.toks : cur.toks[j].ty.t = "a"}} \cup {<<"atty", i>> : i \in {j \in DOMAIN cur.ats : cur.ats[j].ty.t = "a"}}
At1(p) == CASE p[1] = "decl" -> cur.doc [] p[1] = "content" -> cur.cdoc [] p[1] = "restr" -> cur.rdoc [] p[1] = "type" -> cur.ty.d[1].doc
            [] p[1] = "tok" -> cur.toks[p[2]].doc [] p[1] = "at" -> cur.ats[p[2]].doc
            [] p[1] = "tokty" -> cur.toks[p[2]].ty.d[1].doc [] p[1] = "atty" -> cur.ats[p[2]].ty.d[1].doc
Put(p, items) ==
  CASE p[1] = "decl" -> [cur EXCEPT !.doc = items] [] p[1] = "content" -> [cur EXCEPT !.cdoc = items] [] p[1] = "restr" -> [cur EXCEPT !.rdoc = items]
    [] p[1] = "type" -> [cur EXCEPT !.ty.d[1].doc = items] [] p[1] = "tok" -> [cur EXCEPT !.toks[p[2]].doc = items] [] p[1] = "at" -> [cur EXCEPT !.ats[p[2]].doc = items]
    [] p[1] = "tokty" -> [cur EXCEPT !.toks[p[2]].ty.d[1].doc = items] [] p[1] = "atty" -> [cur EXCEPT !.ats[p[2]].ty.d[1].doc = items]
Note(f, v, new) == [f |-> f, v |-> v, new |-> new]
Annotate ==
  /\ MaxNotes > 0 /\ phase = "build" /\ ~Idle
  /\ \E p \in Pick(Places) : \E f \in Pick(NotesUsed), new \in Pick(IF At1(p) = <<>> THEN {TRUE} ELSE BOOLEAN) :
       LET items == At1(p) IN
       /\ Len(items) < MaxNotes
       /\ cur' = Put(p, Append(items, Note(f, cur.k \o cur.n \o p[1] \o ToString(p[2]) \o "." \o ToString(Len(items)), new)))
  /\ UNCHANGED <<w, nest, wrap, phase, goal>>
AnnotateSchema ==
  /\ MaxNotes > 0 /\ phase = "build" /\ Idle /\ w # <<>> /\ Len(w[Len(w)].doc) < MaxNotes
  /\ \E f \in Pick(NotesUsed), new \in Pick(IF w[Len(w)].doc = <<>> THEN {TRUE} ELSE BOOLEAN) :
       w' = [w EXCEPT ![Len(w)].doc = Append(@, Note(f, "schema" \o ToString(Len(w)) \o "." \o ToString(Len(@)), new))]
  /\ UNCHANGED <<cur, nest, wrap, phase, goal>>

Complete == /\ nest = <<>>
            /\ (cur.k = "gr" => cur.toks # <<>>)
            /\ (cur.k = "st" /\ cur.form = "union") => cur.mem # <<>>
\* a declaration may be written at either end of its schema
Finish ==
  /\ ~Idle /\ Complete
  /\ \E front \in Pick(Flags) :
       w' = [w EXCEPT ![Len(w)].decls = IF front THEN <<cur>> \o @ ELSE Append(@, cur)]
  /\ cur' = None
  /\ UNCHANGED <<nest, wrap, phase, goal>>

-----------------------------------------------------------------------------
(* Declare what is missing.                                                 *)
Default(c, n) ==
  CASE c = "ty" /\ n \in {"C1", "C2", "C3"} ->
         [D0 EXCEPT !.k = "ct", !.n = n, !.form = "short", !.toks = <<Open("sequence", -1, -1), El("f", B("int"), -1, -1), Close>>]
    [] c = "ty" /\ n \in {"Q1", "Q2"} ->
         [D0 EXCEPT !.k = "ct", !.n = n, !.form = "sext", !.base = B("string"), !.ats = <<At("q", B("int"), "", "")>>]
    [] c = "ty" -> [D0 EXCEPT !.k = "st", !.n = n, !.form = "restr", !.base = B("string"), !.fac = <<[f |-> "maxLength", v |-> "7"]>>]
    [] c = "el" -> [D0 EXCEPT !.k = "el", !.n = n, !.form = "-", !.ty = B("int")]
    [] c = "at" -> [D0 EXCEPT !.k = "at", !.n = n, !.form = "-", !.ty = B("boolean")]
    [] c = "gr" -> [D0 EXCEPT !.k = "gr", !.n = n, !.form = "-", !.toks = <<Open("sequence", -1, -1), El("g", B("long"), -1, -1), Close>>]
    [] c = "ag" -> [D0 EXCEPT !.k = "ag", !.n = n, !.form = "-", !.ats = <<At("h" \o n, B("int"), "required", "")>>]

Fill ==
  /\ phase = "build" /\ Idle /\ Cardinality(Sites(w)) = goal /\ Missing(w) # {}
  /\ LET r == CHOOSE r \in Missing(w) : TRUE
         homes == {i \in DOMAIN w : w[i].ns = r[2]}
     IN IF homes = {}
        THEN \E st \in Pick(Styles) : w' = Append(w, [ns |-> r[2], style |-> st, decls |-> <<Default(r[1], r[3])>>, doc |-> <<>>])
        ELSE \E i \in Pick(homes), front \in Pick(Flags) :
               w' = [w EXCEPT ![i].decls = IF front THEN <<Default(r[1], r[3])>> \o @ ELSE Append(@, Default(r[1], r[3]))]
  /\ phase' = "fill"
  /\ UNCHANGED <<cur, nest, wrap, goal>>
FillMore == phase = "fill" /\ Missing(w) # {} /\
  /\ LET r == CHOOSE r \in Missing(w) : TRUE
         homes == {i \in DOMAIN w : w[i].ns = r[2]}
     IN IF homes = {}
        THEN \E st \in Pick(Styles) : w' = Append(w, [ns |-> r[2], style |-> st, decls |-> <<Default(r[1], r[3])>>, doc |-> <<>>])
        ELSE \E i \in Pick(homes), front \in Pick(Flags) :
               w' = [w EXCEPT ![i].decls = IF front THEN <<Default(r[1], r[3])>> \o @ ELSE Append(@, Default(r[1], r[3]))]
  /\ UNCHANGED <<cur, nest, wrap, phase, goal>>
Stop == /\ phase \in {"build", "fill"} /\ Idle /\ Cardinality(Sites(w)) >= goal /\ Missing(w) = {}
        /\ phase' = "done"
        /\ UNCHANGED <<w, cur, nest, wrap, goal>>

Next == NewDoc \/ Start \/ OpenC \/ AddEl \/ AddRef \/ AddGroup \/ AddAny \/ CloseC \/ AddAt \/ AddFacet
        \/ AddMember \/ Annotate \/ AnnotateSchema \/ Finish \/ Fill \/ FillMore \/ Stop
Spec == Init /\ [][Next]_vars

Done == phase = "done" /\ Valid(w)
Design == Done => ChainsEnd(w) /\ InlineOK(w) /\ MixedOK(w)
Vector == [k |-> "xsd", w |-> w, wrap |-> wrap, reports |-> Reports(w)]
Emit == Done => CSVWrite("%1$s", <<ToJson(Vector)>>, IOEnv.OUT)
=============================================================================
