------------------------------ MODULE SoapArrays ------------------------------
(***************************************************************************)
(* SOAP arrays: types that restrict soapenc:Array and name the type of     *)
(* their items in a wsdl:arrayType attribute.  Which Go types they become, *)
(* and what happens to the documents that hold them.                       *)
(*                                                                         *)
(* Types are declared one after the other, options are chosen, and then    *)
(* documents are decoded, encoded and decoded again.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils

G == INSTANCE XsdGen WITH Deviations <- FALSE  \* for lexical forms of builtin types

CONSTANTS Sim, MaxTypes, MaxDocs
VARIABLES phase, types, opt, doc, value, log
vars == <<phase, types, opt, doc, value, log>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* Declarations.  arr: form says what else is in the restriction: nothing;  *)
(* the wildcard again; an element for items; another attribute, before or   *)
(* after the one for the type of items.  st: a restriction or a list of a   *)
(* builtin type.  ct: a string k and the fields.                            *)
Ref(i) == [b |-> "", i |-> i]
Blt(b) == [b |-> b, i |-> 0]
Forms == {"plain", "any", "named", "before", "after"}
Arr(ns, form, item) == [k |-> "arr", ns |-> ns, form |-> form, item |-> item, fs |-> <<>>]
St(ns, form, b) == [k |-> "st", ns |-> ns, form |-> form, item |-> Blt(b), fs |-> <<>>]
Ct(ns, fs) == [k |-> "ct", ns |-> ns, form |-> "", item |-> Blt(""), fs |-> fs]
Fld(ty, occ) == [ty |-> ty, occ |-> occ]
Builtins == {"string", "int", "boolean", "date", "dateTime", "time", "base64Binary", "hexBinary", "decimal", "double", "float", "long", "unsignedByte", "byte",
             "unsignedInt", "unsignedLong", "short", "integer", "positiveInteger", "anyURI", "token", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "duration"}
Spaces == {"urn:t", "urn:u"}
IsArr(r) == r.b = "" /\ types[r.i].k = "arr"
IsCt(r) == r.b = "" /\ types[r.i].k = "ct"

Init == /\ phase = "declare" /\ types = <<>> /\ opt = [slice |-> FALSE, ign |-> TRUE] /\ doc = <<>> /\ value = <<>> /\ log = <<>>

(* Any number of types, which may refer to each other and to themselves; a  *)
(* structure that has to be in itself is the only thing that is impossible. *)
RandomRef(n) == IF RandomElement(1..5) < 4 THEN Ref(RandomElement(1..n)) ELSE Blt(RandomElement(Builtins))
RandomType(n, i) ==
  LET ns == RandomElement(Spaces) IN
  CASE RandomElement(1..10) < 6 -> Arr(ns, RandomElement(Forms), IF RandomElement(1..2) = 1 THEN Blt(RandomElement(Builtins)) ELSE RandomRef(n))
    [] RandomElement(1..3) = 1 -> St(ns, RandomElement({"restr", "list"}), RandomElement(Builtins))
    [] OTHER -> Ct(ns, [j \in 1..RandomElement(1..3) |-> Fld(RandomRef(n), RandomElement({"one", "opt", "many"}))])
RECURSIVE Bottom(_, _)
\* types that have values at all
Bottom(ts, S) ==
  LET ok(r) == r.b # "" \/ r.i \in S
      more == S \cup {i \in DOMAIN ts : ts[i].k \in {"arr", "st"} \/ \A j \in DOMAIN ts[i].fs : ts[i].fs[j].occ # "one" \/ ok(ts[i].fs[j].ty)}
  IN IF more = S THEN S ELSE Bottom(ts, more)
\* (The namespaces of elements of types of other namespaces are known to be
\* wrong, see C12 in known-findings.txt: there are none.)
OneSpace(ts) == \A i \in DOMAIN ts : LET same(r) == r.b # "" \/ ts[r.i].ns = ts[i].ns IN
  (\A j \in DOMAIN ts[i].fs : same(ts[i].fs[j].ty)) /\ (ts[i].form = "named" => same(ts[i].item))
Possible(ts) == Bottom(ts, {}) = DOMAIN ts /\ OneSpace(ts)
\* all in one namespace
Near(ts) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.ns = "urn:t"]]
\* one of a kind, and a structure that has it in all ways
Catalog ==
  {<<Arr(ns, f, Blt(b)), Ct("urn:t", [j \in 1..3 |-> Fld(Ref(1), <<"one", "opt", "many">>[j])])>> : ns \in {"urn:t"}, f \in Forms, b \in Builtins}
  \cup {<<Arr(ns, f, Ref(3)), Ct(ns, [j \in 1..3 |-> Fld(Ref(1), <<"one", "opt", "many">>[j])]), t>> : ns \in Spaces, f \in Forms, t \in
         {St("urn:t", g, b) : g \in {"restr", "list"}, b \in {"string", "int", "date", "hexBinary", "boolean"}} \cup
         {Ct("urn:t", <<Fld(Blt("date"), "one"), Fld(Blt("int"), "opt")>>), Ct("urn:u", <<Fld(Ref(1), "one")>>), Ct("urn:t", <<Fld(Ref(3), "opt"), Fld(Blt("hexBinary"), "many")>>),
          Arr("urn:t", "plain", Blt("date")), Arr("urn:t", "after", Blt("string")), Arr("urn:u", "named", Ref(3))}}
Declare ==
  /\ phase = "declare"
  /\ IF Sim THEN \E n \in Pick(1..MaxTypes) : \E ts \in {TLCEval([i \in 1..n |-> TLCEval(RandomType(n, i))])} :
                   types' = IF Possible(ts) THEN ts ELSE IF Possible(Near(ts)) THEN Near(ts) ELSE <<Arr("urn:t", "plain", Blt("int"))>>
     ELSE types' \in {ts \in Catalog : Possible(ts)}
  /\ phase' = "configure"
  /\ UNCHANGED <<opt, doc, value, log>>
Configure ==
  /\ phase = "configure"
  /\ \E s \in Pick(BOOLEAN), g \in Pick(IF Sim THEN BOOLEAN ELSE {TRUE}) : opt' = [slice |-> s, ign |-> g]
  /\ phase' = "idle"
  /\ UNCHANGED <<types, doc, value, log>>

\* An array whose structure has no field but that for its items is a slice.
IsSlice(t) == opt.slice /\ opt.ign /\ t.form \in {"plain", "any"}

-----------------------------------------------------------------------------
(* Documents are trees of elements [ns, n, x, c, at, kids]: x is their text *)
(* and c what it means.                                                     *)
El(ns, n, x, c, at, kids) == [ns |-> ns, n |-> n, x |-> x, c |-> c, at |-> at, kids |-> kids]
TypeV(r) == IF r.b # "" THEN G!Scalar(r.b) ELSE [G!Scalar(types[r.i].item.b) EXCEPT !.list = types[r.i].form = "list"]
\* no list has lists or spaces in its items
FieldName(j) == <<"f1", "f2", "f3">>[j]
ItemName(t, s) == IF t.form = "named" THEN <<t.ns, "it">>
                  ELSE G!At1(<<<<"", "item">>, <<"", "Item">>, <<"urn:x", "int">>, <<t.ns, "value">>, <<"", "k">>, <<"http://schemas.xmlsoap.org/soap/encoding/", "int">>>>, s)
RECURSIVE Make(_, _, _, _, _, _), MakeMany(_, _, _, _, _, _)
\* an element of type r; full: it has to have something in it
Make(r, ns, n, s, fuel, full) ==
  IF r.b # "" \/ types[r.i].k = "st" THEN LET v == G!Val(TypeV(r), s, full) IN El(ns, n, v.x, v.c, "", <<>>)
  ELSE LET t == types[r.i] IN
    IF t.k = "arr"
    THEN LET inner == IF fuel = 0 THEN 0 ELSE 1
             count == IF fuel = 0 THEN (IF full /\ IsArr(r) /\ ~IsArr(t.item) /\ ~IsCt(t.item) THEN 1 ELSE 0) ELSE IF full THEN 1 + (s % 3) ELSE s % 4
         IN El(ns, n, "", "", IF t.form \in {"before", "after"} /\ s % 2 = 0 THEN ToString(s + 1) ELSE "",
               TLCEval([k \in 1..count |-> LET nm == ItemName(t, s + (k \div 2)) IN Make(t.item, nm[1], nm[2], s + k, fuel - inner, FALSE)]))
    ELSE El(ns, n, "", "", "", <<El(t.ns, "k", "k" \o ToString(s), "k" \o ToString(s), "", <<>>)>> \o MakeMany(t, 1, s, fuel, ns, n))
MakeMany(t, j, s, fuel, ns, n) ==
  IF j > Len(t.fs) THEN <<>>
  ELSE LET f == t.fs[j]
           deep == f.ty.b = "" /\ types[f.ty.i].k # "st"
           \* an optional array that is there has something in it
           may == ~deep \/ fuel > IF f.occ = "opt" THEN 1 ELSE 0
           count == CASE f.occ = "one" -> 1 [] ~may -> 0 [] f.occ = "opt" -> (s + j) % 2 [] OTHER -> (s + j) % 3
       IN TLCEval([k \in 1..count |-> Make(f.ty, t.ns, FieldName(j), s + j + k, IF fuel = 0 THEN 0 ELSE fuel - 1, f.occ = "opt")]) \o MakeMany(t, j + 1, s, fuel, ns, n)

(* Decoding gives values [s, at, i, f]: the meaning of a text, the further   *)
(* attribute and the items of an array, the fields of a structure.          *)
V0 == [s |-> "", at |-> "", i |-> <<>>, f |-> <<>>]
Named(kids, ns, n) == SelectSeq(kids, LAMBDA e : e.ns = ns /\ e.n = n)
RECURSIVE Decode(_, _)
Decode(r, e) ==
  IF r.b # "" \/ types[r.i].k = "st" THEN [V0 EXCEPT !.s = e.c]
  ELSE LET t == types[r.i] IN
    IF t.k = "arr" THEN [V0 EXCEPT !.at = e.at, !.i = TLCEval([k \in DOMAIN e.kids |-> Decode(t.item, e.kids[k])])]
    ELSE [V0 EXCEPT !.s = Named(e.kids, t.ns, "k")[1].c,
                    !.f = TLCEval([j \in DOMAIN t.fs |-> LET es == Named(e.kids, t.ns, FieldName(j)) IN [k \in DOMAIN es |-> Decode(t.fs[j].ty, es[k])]])]
\* The document for a value: one element for each item.
RECURSIVE Encode(_, _, _, _), EncodeFields(_, _, _)
Encode(r, v, ns, n) ==
  IF r.b # "" \/ types[r.i].k = "st" THEN El(ns, n, v.s, v.s, "", <<>>)
  ELSE LET t == types[r.i] IN
    IF t.k = "arr" THEN El(ns, n, "", "", v.at, TLCEval([k \in DOMAIN v.i |-> Encode(t.item, v.i[k], IF t.form = "named" THEN t.ns ELSE "", IF t.form = "named" THEN "it" ELSE "item")]))
    ELSE El(ns, n, "", "", "", <<El(t.ns, "k", v.s, v.s, "", <<>>)>> \o EncodeFields(t, v, 1))
EncodeFields(t, v, j) ==
  IF j > Len(t.fs) THEN <<>>
  ELSE TLCEval([k \in DOMAIN v.f[j] |-> Encode(t.fs[j].ty, v.f[j][k], t.ns, FieldName(j))]) \o EncodeFields(t, v, j + 1)

(* A document that cannot be decoded: a text with no meaning in its type.   *)
RootRef == Ref(log[Len(log)].root)
Roots == {i \in DOMAIN types : types[i].k \in {"arr", "ct"}}
Receive ==
  /\ phase = "idle" /\ Len(log) < MaxDocs
  /\ \E i \in Pick(IF Roots = {} THEN {0} ELSE Roots), s \in Pick(IF Sim THEN 0..23 ELSE {2 * Len(log) + 1}) :
       /\ i # 0
       /\ doc' = TLCEval(<<Make(Ref(i), "urn:root", "root", s, 3, FALSE)>>)
       /\ log' = Append(log, [root |-> i, doc |-> doc'[1], value |-> V0, bad |-> FALSE])
  /\ phase' = "received"
  /\ UNCHANGED <<types, opt, value>>
Understand ==
  /\ phase = "received"
  /\ value' = <<Decode(RootRef, doc[1])>>
  /\ log' = [log EXCEPT ![Len(log)].value = value'[1]]
  /\ phase' = "decoded"
  /\ UNCHANGED <<types, opt, doc>>
Send ==
  /\ phase = "decoded"
  /\ doc' = <<Encode(RootRef, value[1], "urn:root", "root")>>
  /\ phase' = "idle"
  /\ UNCHANGED <<types, opt, value, log>>
\* The first text that can be wrong is.
Wrong(b) == b \in {"int", "boolean", "date", "dateTime", "time", "base64Binary", "hexBinary", "decimal", "double", "float", "long", "unsignedByte", "byte", "unsignedInt", "unsignedLong",
                   "short", "integer", "positiveInteger", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth"}
RECURSIVE Spoiled(_, _)
Spoiled(r, e) ==
  IF r.b # "" \/ types[r.i].k = "st" THEN IF Wrong(TypeV(r).b) THEN <<El(e.ns, e.n, "no value!", "", "", <<>>)>> ELSE <<>>
  ELSE LET t == types[r.i]
           try(k) == LET kid == e.kids[k] IN
                     IF t.k = "arr" THEN Spoiled(t.item, kid)
                     ELSE IF kid.n = "k" THEN <<>>
                     ELSE Spoiled(t.fs[CHOOSE j \in 1..3 : FieldName(j) = kid.n].ty, kid)
           can == {k \in DOMAIN e.kids : try(k) # <<>>}
       IN IF can = {} THEN <<>> ELSE LET k == Max(can) IN <<[e EXCEPT !.kids[k] = try(k)[1]]>>
\* (Slices leave out such items, see known-findings.txt.)
ReceiveBad ==
  /\ phase = "idle" /\ Len(log) < MaxDocs
  /\ \A i \in DOMAIN types : types[i].k = "arr" => ~IsSlice(types[i])
  /\ \E i \in Pick(IF Roots = {} THEN {0} ELSE Roots), s \in Pick(IF Sim THEN 0..23 ELSE {2 * Len(log) + 1}) :
       /\ i # 0
       /\ LET e == TLCEval(Spoiled(Ref(i), Make(Ref(i), "urn:root", "root", s, 3, FALSE))) IN
          /\ e # <<>>
          /\ doc' = e
          /\ log' = Append(log, [root |-> i, doc |-> e[1], value |-> V0, bad |-> TRUE])
  /\ UNCHANGED <<phase, types, opt, value>>
Finish == phase = "idle" /\ Len(log) = MaxDocs /\ phase' = "end" /\ UNCHANGED <<types, opt, doc, value, log>>
Next == Declare \/ Configure \/ Receive \/ Understand \/ Send \/ ReceiveBad \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What was sent means what was received.
RoundTrip == phase = "idle" /\ value # <<>> /\ ~log[Len(log)].bad => Decode(RootRef, doc[1]) = value[1]
\* An item for each element, in order.
AllItems == phase = "decoded" /\ IsArr(RootRef) =>
  /\ Len(value[1].i) = Len(doc[1].kids)
  /\ ~IsArr(types[RootRef.i].item) /\ ~IsCt(types[RootRef.i].item) => \A k \in DOMAIN doc[1].kids : value[1].i[k].s = doc[1].kids[k].c
\* Names of the elements of items make no difference, except for arrays that
\* declare an element for them.
RECURSIVE Renamed(_, _)
Renamed(r, e) ==
  IF r.b # "" \/ types[r.i].k = "st" THEN e
  ELSE LET t == types[r.i] IN
    IF t.k = "arr" THEN [e EXCEPT !.kids = TLCEval([k \in DOMAIN e.kids |-> LET x == Renamed(t.item, e.kids[k]) IN IF t.form = "named" THEN x ELSE [x EXCEPT !.ns = "urn:any", !.n = "any"]])]
    ELSE [e EXCEPT !.kids = TLCEval([k \in DOMAIN e.kids |-> IF e.kids[k].n = "k" THEN e.kids[k] ELSE Renamed(t.fs[CHOOSE j \in 1..3 : FieldName(j) = e.kids[k].n].ty, e.kids[k])])]
NamesDoNotMatter == phase = "decoded" => Decode(RootRef, Renamed(RootRef, doc[1])) = value[1]

GoOf(r) == IF r.b # "" THEN G!GoKind(r.b) ELSE ""
Emit == phase = "end" => CSVWrite("%1$s", <<ToJson([k |-> "soap", opt |-> opt,
  types |-> [i \in DOMAIN types |-> LET t == types[i] IN [k |-> t.k, ns |-> t.ns, form |-> t.form, b |-> t.item.b, i |-> t.item.i, go |-> GoOf(t.item), slice |-> t.k = "arr" /\ IsSlice(t),
                                                          fs |-> [j \in DOMAIN t.fs |-> [b |-> t.fs[j].ty.b, i |-> t.fs[j].ty.i, occ |-> t.fs[j].occ]]]],
  docs |-> log])>>, IOEnv.OUT)
=============================================================================
