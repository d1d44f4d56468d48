--------------------------------- MODULE Xsd ---------------------------------
(***************************************************************************)
(* The meaning of XML Schema documents for the xsd package: what types a   *)
(* set of schema declares and what is known about each of them, stated     *)
(* directly on the declarations (no pipeline of rewriting passes).         *)
(*                                                                         *)
(* A world is a sequence of schema [ns, style, decls].  A declaration, a   *)
(* content token and an attribute token are records with a fixed set of    *)
(* fields (D0, T0, A0).  The content of a type or group is a sequence of   *)
(* tokens; "open" and "close" delimit compositors.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* TRUE: element names as the package is known to compute them, see
\* known-findings.txt.  FALSE: canonical names.
CONSTANT Deviations

\* Type references: builtin, named, anonymous, absent.
B(n)     == [t |-> "b", ns |-> "", n |-> n, d |-> <<>>]
N(ns, n) == [t |-> "n", ns |-> ns, n |-> n, d |-> <<>>]
Anon(d)  == [t |-> "a", ns |-> "", n |-> "", d |-> <<d>>]
NoType   == [t |-> "0", ns |-> "", n |-> "", d |-> <<>>]

D0 == [k |-> "", n |-> "", abs |-> FALSE, mix |-> "", form |-> "", base |-> NoType, ccmix |-> "",
       toks |-> <<>>, ats |-> <<>>, fac |-> <<>>, mem |-> <<>>, ty |-> NoType, def |-> "", nil |-> FALSE,
       doc |-> <<>>, cdoc |-> <<>>, rdoc |-> <<>>]
T0 == [p |-> "", n |-> "", ns |-> "", ty |-> NoType, min |-> -1, max |-> -1, nil |-> FALSE, def |-> "", abs |-> FALSE, doc |-> <<>>]
A0 == [a |-> "", n |-> "", ns |-> "", ty |-> NoType, use |-> "", def |-> "", doc |-> <<>>]
Unbounded == 99

Open(c, min, max) == [T0 EXCEPT !.p = c, !.min = min, !.max = max]
Close             == [T0 EXCEPT !.p = "close"]
El(n, ty, min, max) == [T0 EXCEPT !.p = "el", !.n = n, !.ty = ty, !.min = min, !.max = max]
Ref(ns, n, min, max)  == [T0 EXCEPT !.p = "ref", !.ns = ns, !.n = n, !.min = min, !.max = max]
GrpRef(ns, n, min, max) == [T0 EXCEPT !.p = "gref", !.ns = ns, !.n = n, !.min = min, !.max = max]
AnyEl(min, max)     == [T0 EXCEPT !.p = "any", !.min = min, !.max = max]
Compositors == {"sequence", "choice", "all"}
At(n, ty, use, def) == [A0 EXCEPT !.a = "at", !.n = n, !.ty = ty, !.use = use, !.def = def]
AtRef(ns, n, use)   == [A0 EXCEPT !.a = "ref", !.ns = ns, !.n = n, !.use = use]
AgRef(ns, n)        == [A0 EXCEPT !.a = "agref", !.ns = ns, !.n = n]

-----------------------------------------------------------------------------
(* Annotations: sequences of items [f, v, new] (form, text, whether an      *)
(* annotation element starts with it).  Documentation is reported line by   *)
(* line; what is in an appinfo element and what markup there is, is not.    *)
NoteForms == {"text", "two", "cdata", "escaped", "markup", "xsd", "app", "appxsd", "empty"}
LinesOf(i) == CASE i.f \in {"text", "markup", "xsd"} -> <<i.v>>
                [] i.f = "two" -> <<i.v \o " first", i.v \o " second">>
                [] i.f \in {"cdata", "escaped"} -> <<i.v \o " <b> & c">>
                [] OTHER -> <<>>
Lines(items) == FlattenSeq([i \in DOMAIN items |-> LinesOf(items[i])])

-----------------------------------------------------------------------------
(* Symbol spaces: complex and simple types share one.                       *)
Class(k) == IF k \in {"ct", "st"} THEN "ty" ELSE k
Sites(w) == UNION {{<<i, j>> : j \in DOMAIN w[i].decls} : i \in DOMAIN w}
Declares(w, s, c, ns, n) == /\ w[s[1]].ns = ns
                            /\ Class(w[s[1]].decls[s[2]].k) = c
                            /\ w[s[1]].decls[s[2]].n = n
Has(w, c, ns, n) == \E s \in Sites(w) : Declares(w, s, c, ns, n)
Get(w, c, ns, n) == LET s == CHOOSE s \in Sites(w) : Declares(w, s, c, ns, n) IN w[s[1]].decls[s[2]]

\* Everything a declaration refers to: <<class, namespace, name>>
RECURSIVE RefsOf(_)
RefsOf(d) ==
  LET tr(t) == IF t.t = "n" THEN {<<"ty", t.ns, t.n>>} ELSE IF t.t = "a" THEN RefsOf(t.d[1]) ELSE {}
      tok(x) == CASE x.p = "el"   -> tr(x.ty)
                  [] x.p = "ref"  -> {<<"el", x.ns, x.n>>}
                  [] x.p = "gref" -> {<<"gr", x.ns, x.n>>}
                  [] OTHER        -> {}
      att(x) == CASE x.a = "at"  -> tr(x.ty)
                  [] x.a = "ref" -> {<<"at", x.ns, x.n>>}
                  [] OTHER       -> {<<"ag", x.ns, x.n>>}
  IN tr(d.base) \cup tr(d.ty) \cup UNION {tok(d.toks[i]) : i \in DOMAIN d.toks}
     \cup UNION {att(d.ats[i]) : i \in DOMAIN d.ats} \cup UNION {tr(d.mem[i]) : i \in DOMAIN d.mem}
AllRefs(w) == UNION {RefsOf(w[s[1]].decls[s[2]]) : s \in Sites(w)}
Missing(w) == {r \in AllRefs(w) : ~Has(w, r[1], r[2], r[3])}

-----------------------------------------------------------------------------
(* Content: the flat list of elements, with the bounds of every enclosing   *)
(* compositor and group reference taken into account.                       *)
Plu(x) == x.min > 1 \/ x.max > 1
Opt(x) == x.min = 0

\* The element's own name: local declarations are in the target namespace
\* of the schema they are written in.
ElNS(ns, ty) == IF Deviations /\ ty.t = "n" THEN ty.ns ELSE ns

Entry(x, ns, min, max, c) ==
  [n |-> x.n, ns |-> ElNS(ns, x.ty), tns |-> ns, ty |-> IF x.ty.t = "0" THEN B("anyType") ELSE x.ty,
   opt |-> c.opt \/ min = 0 \/ x.def # "", plu |-> c.plu \/ Plu([min |-> min, max |-> max]),
   nil |-> x.nil, def |-> x.def, abs |-> x.abs, wild |-> FALSE, doc |-> Lines(x.doc)]

RECURSIVE Flat(_, _, _, _)
Flat(w, ns, toks, c0) ==
  LET RECURSIVE go(_, _, _)
      go(i, st, out) ==
        IF i > Len(toks) THEN out
        ELSE LET x == toks[i]
                 c == st[Len(st)]
             IN CASE x.p \in Compositors ->
                       go(i + 1, Append(st, [opt |-> c.opt \/ x.p = "choice" \/ Opt(x), plu |-> c.plu \/ Plu(x)]), out)
                  [] x.p = "close" -> go(i + 1, SubSeq(st, 1, Len(st) - 1), out)
                  [] x.p = "el"    -> go(i + 1, st, Append(out, Entry(x, ns, x.min, x.max, c)))
                  [] x.p = "any"   -> go(i + 1, st, Append(out, [Entry(x, ns, x.min, x.max, c) EXCEPT !.wild = TRUE]))
                  [] x.p = "ref"   ->
                       go(i + 1, st, Append(out, Entry(Get(w, "el", x.ns, x.n), x.ns, x.min, x.max, c)))
                  [] x.p = "gref"  ->
                       go(i + 1, st, out \o Flat(w, x.ns, Get(w, "gr", x.ns, x.n).toks,
                                                 [opt |-> c.opt \/ Opt(x), plu |-> c.plu \/ Plu(x)]))
  IN go(1, <<c0>>, <<>>)

Free == [opt |-> FALSE, plu |-> FALSE]

\* Elements that occur several times in one type are one element.
JoinEl(a, b) == [a EXCEPT !.opt = a.opt \/ b.opt, !.plu = a.plu \/ b.plu, !.nil = a.nil \/ b.nil,
                          !.abs = a.abs /\ b.abs, !.def = IF a.def = b.def THEN a.def ELSE "", !.doc = a.doc \o b.doc]
RECURSIVE Joined(_, _)
Joined(rest, out) ==
  IF rest = <<>> THEN out
  ELSE LET x == Head(rest)
           same == {i \in DOMAIN out : out[i].n = x.n /\ out[i].ns = x.ns}
       IN IF same = {} THEN Joined(Tail(rest), Append(out, x))
          ELSE LET i == CHOOSE i \in same : TRUE IN Joined(Tail(rest), [out EXCEPT ![i] = JoinEl(out[i], x)])

Elements(w, ns, toks) ==
  LET all == Flat(w, ns, toks, Free)
      wild == SelectSeq(all, LAMBDA x : x.wild)
      plain == SelectSeq(all, LAMBDA x : ~x.wild)
  IN (IF wild = <<>> THEN <<>> ELSE <<wild[1]>>) \o Joined(plain, <<>>)

\* Same name, same type (Element Declarations Consistent); two anonymous
\* types are different types.
Consistent(w, ns, toks) ==
  LET all == SelectSeq(Flat(w, ns, toks, Free), LAMBDA x : ~x.wild) IN
  \A i, j \in DOMAIN all : (i < j /\ all[i].n = all[j].n) =>
       /\ all[i].tns = all[j].tns
       /\ all[i].ty.t = all[j].ty.t
       /\ all[i].ty.t # "a" /\ all[i].ty.n = all[j].ty.n /\ all[i].ty.ns = all[j].ty.ns

RECURSIVE Attributes(_, _, _)
Attributes(w, ns, ats) ==
  LET one(x) ==
        LET v(d, sp, use) == [n |-> d.n, ns |-> sp, ty |-> IF d.ty.t = "0" THEN B("anySimpleType") ELSE d.ty,
                              opt |-> use # "required", def |-> d.def, tns |-> sp, doc |-> Lines(d.doc)]
        IN CASE x.a = "at"    -> <<[v(x, "*", x.use) EXCEPT !.tns = ns]>>
             [] x.a = "ref"   -> <<v(Get(w, "at", x.ns, x.n), x.ns, x.use)>>
             [] x.a = "agref" -> Attributes(w, x.ns, Get(w, "ag", x.ns, x.n).ats)
      RECURSIVE cat(_)
      cat(i) == IF i > Len(ats) THEN <<>> ELSE one(ats[i]) \o cat(i + 1)
  IN cat(1)

-----------------------------------------------------------------------------
(* Derivation                                                               *)
Extends(d) == d.form \in {"cext", "sext"}
Simple(d)  == d.form \in {"sext", "srestr"}
BaseRef(d) == IF d.k = "ct" THEN IF d.form = "short" THEN B("anyType") ELSE d.base
              ELSE CASE d.form = "union" -> B("anySimpleType") [] OTHER -> d.base

IsSimpleDecl(d) == d.k = "st"
\* May the type contain character data outside of its elements?
RECURSIVE Mixed(_, _)
Mixed(w, d) ==
  LET own == IF Simple(d) THEN TRUE ELSE IF d.ccmix # "" THEN d.ccmix \in {"true", "1"} ELSE d.mix \in {"true", "1"}
      b == BaseRef(d)
  IN own \/ (CASE b.t = "b" -> b.n = "anyType" /\ Extends(d)
               [] b.t = "n" -> LET bd == Get(w, "ty", b.ns, b.n) IN
                               IF bd.k = "st" THEN TRUE ELSE Extends(d) /\ Mixed(w, bd)
               [] b.t = "a" -> IF b.d[1].k = "st" THEN TRUE ELSE FALSE
               [] OTHER -> FALSE)

\* The chain of base types, ending in a builtin.
RECURSIVE Chain(_, _)
Chain(w, d) ==
  LET b == BaseRef(d) IN
  CASE b.t = "b" -> <<b>>
    [] b.t = "n" -> <<b>> \o Chain(w, Get(w, "ty", b.ns, b.n))
    [] b.t = "a" -> <<b>> \o Chain(w, b.d[1])

-----------------------------------------------------------------------------
(* Facets: later ones replace earlier ones, enumerations accumulate, and    *)
(* patterns of one derivation step are alternatives.                        *)
FacetVals(d, f) == LET s == SelectSeq(d.fac, LAMBDA x : x.f = f) IN [i \in DOMAIN s |-> s[i].v]
LastOf(s, z) == IF s = <<>> THEN z ELSE s[Len(s)]
Facets(d) ==
  [enum |-> FacetVals(d, "enumeration"), pattern |-> FacetVals(d, "pattern"),
   len |-> LastOf(FacetVals(d, "length"), "0"), minlen |-> LastOf(FacetVals(d, "minLength"), "0"),
   maxlen |-> LastOf(FacetVals(d, "maxLength"), "0"), total |-> LastOf(FacetVals(d, "totalDigits"), "0"),
   frac |-> LastOf(FacetVals(d, "fractionDigits"), "0"),
   min |-> LastOf(LET s == SelectSeq(d.fac, LAMBDA x : x.f \in {"minInclusive", "minExclusive"})
                  IN [i \in DOMAIN s |-> s[i].v], ""),
   max |-> LastOf(LET s == SelectSeq(d.fac, LAMBDA x : x.f \in {"maxInclusive", "maxExclusive"})
                  IN [i \in DOMAIN s |-> s[i].v], "")]

-----------------------------------------------------------------------------
(* What the package has to report: the view of each declared type.  An      *)
(* anonymous type is shown inline, as its name is the package's choice.     *)
RECURSIVE View(_, _, _)
TypeV(w, ns, t) == CASE t.t = "a" -> [t |-> "a", ns |-> ns, d |-> View(w, ns, t.d[1])]
                     [] OTHER -> [t |-> t.t, ns |-> t.ns, n |-> t.n]
ElV(w, e) == [n |-> e.n, ns |-> e.ns, ty |-> TypeV(w, e.tns, e.ty), opt |-> e.opt, plu |-> e.plu, nil |-> e.nil,
              def |-> e.def, abs |-> e.abs, wild |-> e.wild, doc |-> e.doc]
AtV(w, ns, a) == [n |-> a.n, ns |-> a.ns, ty |-> TypeV(w, a.tns, a.ty), opt |-> a.opt, def |-> a.def, doc |-> a.doc]
View(w, ns, d) ==
  IF d.k = "ct"
  THEN LET els == Elements(w, ns, d.toks)  ats == Attributes(w, ns, d.ats) IN
       [k |-> "ct", abs |-> d.abs, mixed |-> Mixed(w, d), ext |-> Extends(d), base |-> TypeV(w, ns, BaseRef(d)), doc |-> Lines(d.doc), cdoc |-> Lines(d.cdoc),
        els |-> [i \in DOMAIN els |-> ElV(w, els[i])], ats |-> [i \in DOMAIN ats |-> AtV(w, ns, ats[i])],
        chain |-> LET c == Chain(w, d) IN [i \in DOMAIN c |-> [t |-> c[i].t, ns |-> c[i].ns, n |-> c[i].n]]]
  ELSE [k |-> "st", list |-> d.form = "list", base |-> TypeV(w, ns, BaseRef(d)),
        mem |-> [i \in DOMAIN d.mem |-> TypeV(w, ns, d.mem[i])], fac |-> Facets(d), doc |-> Lines(d.doc), rdoc |-> Lines(d.rdoc),
        chain |-> LET c == Chain(w, d) IN [i \in DOMAIN c |-> [t |-> c[i].t, ns |-> c[i].ns, n |-> c[i].n]]]

\* One report per schema: its types, its document elements and the names
\* of global elements that are aliases for their types.
RECURSIVE Anons(_)
Anons(d) ==
  LET one(t) == IF t.t = "a" THEN 1 + Anons(t.d[1]) ELSE 0
      sum(s) == FoldLeft(LAMBDA a, x : a + one(x.ty), 0, s)
  IN one(d.base) + one(d.ty) + sum(d.toks) + sum(d.ats) + FoldLeft(LAMBDA a, t : a + one(t), 0, d.mem)

Report(w, i) ==
  LET s == w[i]
      types == SelectSeq(s.decls, LAMBDA d : Class(d.k) = "ty")
      els == SelectSeq(s.decls, LAMBDA d : d.k = "el")
      self == [j \in DOMAIN els |-> Entry(els[j], s.ns, -1, -1, Free)]
  IN [ns |-> s.ns, doc |-> IF "doc" \in DOMAIN s THEN Lines(s.doc) ELSE <<>>, anons |-> FoldLeft(LAMBDA a, d : a + Anons(d), 0, s.decls),
      types |-> [j \in DOMAIN types |-> [n |-> types[j].n, v |-> View(w, s.ns, types[j])]],
      self |-> [j \in DOMAIN self |-> ElV(w, self[j])]]
Reports(w) == [i \in DOMAIN w |-> Report(w, i)]

-----------------------------------------------------------------------------
(* Well-formed worlds                                                       *)
RECURSIVE AnonConsistent(_, _, _)
AnonConsistent(w, ns, d) ==
  LET sub(t) == t.t = "a" => AnonConsistent(w, ns, t.d[1]) IN
  /\ Consistent(w, ns, d.toks)
  /\ sub(d.base) /\ sub(d.ty)
  /\ \A i \in DOMAIN d.toks : sub(d.toks[i].ty)
  /\ \A i \in DOMAIN d.ats : sub(d.ats[i].ty)
  /\ \A i \in DOMAIN d.mem : sub(d.mem[i])
UniqueAttrs(w, ns, d) ==
  LET a == Attributes(w, ns, d.ats) IN \A i, j \in DOMAIN a : i # j => a[i].n # a[j].n
Valid(w) ==
  /\ Missing(w) = {}
  /\ \A s, t \in Sites(w) : s # t =>
       LET d == w[s[1]].decls[s[2]] IN ~Declares(w, t, Class(d.k), w[s[1]].ns, d.n)
  /\ \A s \in Sites(w) : LET d == w[s[1]].decls[s[2]]  ns == w[s[1]].ns IN
       /\ AnonConsistent(w, ns, d)
       /\ UniqueAttrs(w, ns, d)

-----------------------------------------------------------------------------
(* Properties of the semantics itself, checked by TLC on every world.       *)
ChainsEnd(w) == \A s \in Sites(w) : LET d == w[s[1]].decls[s[2]] IN
  Class(d.k) = "ty" => LET c == Chain(w, d) IN c[Len(c)].t = "b" /\ \A i \in 1..(Len(c) - 1) : c[i].t # "b"
\* A group reference means what its content means.
Inline(w, ns, toks) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(toks) THEN <<>>
               ELSE LET x == toks[i] IN
                    (IF x.p = "gref" /\ x.ns = ns
                     THEN <<Open("sequence", x.min, x.max)>> \o Get(w, "gr", ns, x.n).toks \o <<Close>>
                     ELSE <<x>>) \o go(i + 1)
  IN go(1)
InlineOK(w) == \A s \in Sites(w) : LET d == w[s[1]].decls[s[2]]  ns == w[s[1]].ns IN
  Elements(w, ns, d.toks) = Elements(w, ns, Inline(w, ns, d.toks))
\* Extending a type never loses its mixedness.
MixedOK(w) == \A s \in Sites(w) : LET d == w[s[1]].decls[s[2]] IN
  (d.k = "ct" /\ Extends(d) /\ d.base.t = "n" /\ Get(w, "ty", d.base.ns, d.base.n).k = "ct"
   /\ Mixed(w, Get(w, "ty", d.base.ns, d.base.n))) => Mixed(w, d)
=============================================================================
