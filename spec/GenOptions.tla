----------------------------- MODULE GenOptions -----------------------------
(***************************************************************************)
(* Configurations of the generator as state machines: options are applied, *)
(* one or several at a time, reverted with the option that applying them   *)
(* returned, and applied again; sources are generated in between.  Each    *)
(* setting is a history of values of which the last one counts.  What is   *)
(* generated is a function of the current settings alone, which this       *)
(* module states for two small schema: package, declarations, fields.      *)
(*                                                                         *)
(* Names are sequences of characters, so that replacement is defined.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils

CONSTANTS Configs,    \* configurations that share options
          Catalog,    \* options that are used
          MaxSteps,   \* length of a behaviour
          MaxMany,    \* options applied at a time
          Sim         \* TRUE: choose at random

VARIABLES st,     \* config -> setting -> sequence of [v, tok]; tok: it can be reverted
          undone, \* config -> setting -> values that can be applied again
          hist    \* the steps
vars == <<st, undone, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* Settings and options.  An option changes one setting.                    *)
Settings == {"ns", "pkg", "ignA", "ignE", "only", "allow", "repl", "proc", "post", "out", "lvl"}
Initial == [s \in Settings |-> CASE s = "ns" -> {} [] s = "pkg" -> "" [] s = "ignA" -> {} [] s = "ignE" -> {} [] s = "only" -> {} [] s = "allow" -> {}
                                 [] s = "repl" -> <<>> [] s = "proc" -> <<>> [] s = "post" -> FALSE [] s = "out" -> "" [] s = "lvl" -> 0]

n1(a) == <<a>>
n3(a, b, c) == <<a, b, c>>
Offset == <<"o", "f", "f", "s", "e", "t">>
Href == <<"h", "r", "e", "f">>
Id == <<"i", "d">>
Ref == <<"r", "e", "f">>
ArrayType == <<"a", "r", "r", "a", "y", "T", "y", "p", "e">>

\* <<setting, effect, argument>>: "set" to a value, "add" to a set, "app"end
\* to a sequence, or leave it ("keep")
Option(o) ==
  CASE o = "ns0"    -> <<"ns", "set", {}>>
    [] o = "nsA"    -> <<"ns", "set", {"urn:a"}>>
    [] o = "nsB"    -> <<"ns", "set", {"urn:b"}>>
    [] o = "nsAB"   -> <<"ns", "set", {"urn:a", "urn:b"}>>
    [] o = "nsAA"   -> <<"ns", "set", {"urn:a"}>>
    [] o = "nsAM"   -> <<"ns", "set", {"urn:a", "urn:m"}>>
    [] o = "pkgP"   -> <<"pkg", "set", "p">>
    [] o = "pkgQ"   -> <<"pkg", "set", "q">>
    [] o = "ws"     -> <<"pkg", "set", "ws">>
    [] o = "ignA0"  -> <<"ignA", "set", {}>>
    [] o = "ignA1"  -> <<"ignA", "set", {n1("k"), Id}>>
    [] o = "ignA2"  -> <<"ignA", "set", {Id, Href, Offset, n1("p")}>>
    [] o = "ignAd"  -> <<"ignA", "set", {Id, Href, Ref, Offset}>>
    [] o = "ignE1"  -> <<"ignE", "set", {<<"o", "n", "e">>}>>
    [] o = "ignE2"  -> <<"ignE", "set", {<<"t", "w", "o">>, <<"n", "o">>}>>
    [] o = "only1"  -> <<"only", "set", {n3("a", "b", "c"), n3("c", "a", "b")}>>
    [] o = "only2"  -> <<"only", "set", {n3("b", "c", "a"), n3("a", "r", "r")}>>
    [] o = "allow1" -> <<"allow", "add", <<"urn:a", n3("a", "b", "c")>>>>
    [] o = "allow2" -> <<"allow", "add", <<"urn:b", n3("b", "a", "c")>>>>
    [] o = "allow3" -> <<"allow", "add", <<"urn:a", n3("a", "r", "r")>>>>
    [] o = "replac" -> <<"repl", "app", <<"a", <<"c">>>>>>
    [] o = "replcx" -> <<"repl", "app", <<"c", <<"x", "y">>>>>>
    [] o = "replb"  -> <<"repl", "app", <<"b", <<>>>>>>
    [] o = "replbad" -> <<"repl", "keep", {}>>
    [] o = "repl_"  -> <<"repl", "app", <<"_", <<>>>>>>
    [] o = "procp"  -> <<"proc", "app", "p">>
    [] o = "procq"  -> <<"proc", "app", "q">>
    [] o = "names"  -> <<"proc", "app", "names">>
    [] o = "soap"   -> <<"proc", "app", "soap">>
    [] o = "slice"  -> <<"post", "set", TRUE>>
    [] o = "out1"   -> <<"out", "set", "1">>
    [] o = "out2"   -> <<"out", "set", "2">>
    [] o = "out0"   -> <<"out", "set", "">>
    [] o = "lvl0"   -> <<"lvl", "set", 0>>
    [] o = "lvl5"   -> <<"lvl", "set", 5>>
Defaults == <<"ignAd", "repl_", "ws", "soap", "slice", "names">>

Top(c, s) == IF st[c][s] = <<>> THEN Initial[s] ELSE Last(st[c][s]).v
Cfg(c) == [s \in Settings |-> Top(c, s)]
After(o, v) == LET p == Option(o) IN
  CASE p[2] = "set" -> p[3] [] p[2] = "add" -> v \cup {p[3]} [] p[2] = "app" -> Append(v, p[3]) [] OTHER -> v

-----------------------------------------------------------------------------
(* The schema, and what is generated from them.                             *)
E(n, ns, t) == [n |-> n, ns |-> ns, t |-> t]      \* a field of named type t, or of a builtin type
Anonymous == <<"-">>
Types ==
  [t \in {<<"urn:a", n3("a", "b", "c")>>, <<"urn:a", n3("b", "c", "a")>>, <<"urn:a", n3("c", "a", "b")>>, <<"urn:a", Anonymous>>, <<"urn:a", n3("a", "r", "r")>>,
          <<"urn:b", n3("b", "a", "c")>>, <<"urn:b", <<"a", "c", "_", "b">>>>} |->
   CASE t = <<"urn:a", n3("a", "b", "c")>> -> [els |-> <<E(<<"o", "n", "e">>, "", <<>>), E(<<"t", "w", "o">>, "urn:a", n3("b", "c", "a"))>>, ats |-> <<Id, n1("k")>>]
     [] t = <<"urn:a", n3("b", "c", "a")>> -> [els |-> <<E(<<"d", "a">>, "", <<>>)>>, ats |-> <<>>]
     [] t = <<"urn:a", n3("c", "a", "b")>> -> [els |-> <<E(<<"o", "n", "e">>, "", <<>>), E(<<"n", "o">>, "urn:a", Anonymous)>>, ats |-> <<>>]
     [] t = <<"urn:a", Anonymous>> -> [els |-> <<E(<<"m", "_", "b">>, "", <<>>)>>, ats |-> <<>>]
     [] t = <<"urn:a", n3("a", "r", "r")>> -> [els |-> <<>>, ats |-> <<ArrayType, Id, Href, Offset>>]
     [] t = <<"urn:b", n3("b", "a", "c")>> -> [els |-> <<E(<<"o", "n", "e">>, "", <<>>), E(<<"t", "w", "o">>, "urn:a", n3("b", "c", "a"))>>, ats |-> <<>>]
     [] t = <<"urn:b", <<"a", "c", "_", "b">>>> -> [els |-> <<>>, ats |-> <<n1("k")>>]]
Array(t) == t[2] = n3("a", "r", "r")

RECURSIVE Rewrite(_, _)
Rewrite(rules, name) ==
  IF rules = <<>> THEN name
  ELSE LET r == Head(rules) IN
       Rewrite(Tail(rules), FoldLeft(LAMBDA acc, ch : IF ch = r[1] THEN acc \o r[2] ELSE Append(acc, ch), <<>>, name))
Upper(ch) == LET l == "abcdefghijklmnopqrstuvwxyz"  u == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
                 lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
                 upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
                 at == {i \in DOMAIN lower : lower[i] = ch}
             IN IF at = {} THEN ch ELSE upper[CHOOSE i \in at : TRUE]
Str(name) == FoldLeft(LAMBDA acc, ch : acc \o ch, "", name)
\* the identifier for a name; "" if it is left open
Ident(g, name) == LET r == Rewrite(g.repl, name) IN IF r = <<>> \/ r[1] = "_" THEN "" ELSE Str(<<Upper(r[1])>> \o Tail(r))

Filter(s, P(_)) == SelectSeq(s, P)
RealNS(g, docs) == IF g.ns = {} THEN docs ELSE g.ns
Fails(g, docs) == ~(g.ns \subseteq docs)
Els(g, t) == SelectSeq(Types[t].els, LAMBDA e : e.n \notin g.ignE)
Has(g, p) == \E i \in DOMAIN g.proc : g.proc[i] = p
\* functions that were applied to each type of the namespaces in question
Hooks(g, t, docs) == IF t[1] \notin RealNS(g, docs) THEN <<>> ELSE SelectSeq(g.proc, LAMBDA p : p \in {"p", "q"})
Ats(g, t, docs) ==
  LET own == SelectSeq(Types[t].ats, LAMBDA a : ~(a = ArrayType /\ Has(g, "soap") /\ t[1] \in RealNS(g, docs)))
      all == own \o [i \in DOMAIN Hooks(g, t, docs) |-> n1(Hooks(g, t, docs)[i])]
  IN SelectSeq(all, LAMBDA a : a \notin g.ignA)
Sliced(g, t, docs) == g.post /\ Array(t) /\ Ats(g, t, docs) = <<>>
IdentOf(g, t, docs) ==
  IF t[2] # Anonymous THEN Ident(g, t[2])
  ELSE IF Has(g, "names") /\ t[1] \in RealNS(g, docs) THEN Ident(g, <<"n", "o">>) ELSE ""

Present(docs) == {t \in DOMAIN Types : t[1] \in docs}
Roots(g, docs) == {t \in Present(docs) : /\ t[2] # Anonymous /\ t[1] \in RealNS(g, docs)
                                         /\ g.only # {} => t[2] \in g.only
                                         /\ g.allow # {} => t \in g.allow}
Kids(g, t) == {<<Els(g, t)[i].ns, Els(g, t)[i].t>> : i \in {j \in DOMAIN Els(g, t) : Els(g, t)[j].ns # ""}}
All(g, t) == {<<Types[t].els[i].ns, Types[t].els[i].t>> : i \in {j \in DOMAIN Types[t].els : Types[t].els[j].ns # ""}}
RECURSIVE Close(_, _, _)
Close(F(_, _), g, S) == LET more == S \cup UNION {F(g, t) : t \in S} IN IF more = S THEN S ELSE Close(F, g, more)
Must(g, docs) == Close(Kids, g, Roots(g, docs))
May(g, docs) == Close(All, g, Roots(g, docs)) \cup {t \in Present(docs) : t[2] = Anonymous}

FieldIds(g, t, docs) == (IF Array(t) THEN <<"Items">> ELSE [i \in DOMAIN Els(g, t) |-> Ident(g, Els(g, t)[i].n)])
                        \o [i \in DOMAIN Ats(g, t, docs) |-> Ident(g, Ats(g, t, docs)[i])]
Dup(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]
\* names are open if two of them clash or one of them is no identifier
Clash(g, docs) ==
  LET ts == Present(docs) \ {t \in Present(docs) : t[2] = Anonymous /\ IdentOf(g, t, docs) = ""} IN
  \/ \E t, u \in ts : t # u /\ IdentOf(g, t, docs) = IdentOf(g, u, docs)
  \/ \E t \in ts : IdentOf(g, t, docs) \in {"", "Array", Ident(g, <<"A", "r", "r", "a", "y">>)}
  \/ \E t \in Present(docs) : LET f == FieldIds(g, t, docs) IN Dup(f) \/ \E i \in DOMAIN f : f[i] = ""
Expect(g, docs) ==
  IF Fails(g, docs) THEN [err |-> TRUE, pkg |-> "", open |-> FALSE, types |-> <<>>, extra |-> ""]
  ELSE [err |-> FALSE, pkg |-> IF g.pkg = "" THEN "ws" ELSE g.pkg, open |-> Clash(g, docs), extra |-> Ident(g, <<"A", "r", "r", "a", "y">>),
        types |-> [i \in 1..Cardinality(May(g, docs)) |->
                   LET t == SetToSeq(May(g, docs))[i] IN
                   [name |-> IdentOf(g, t, docs), must |-> t \in Must(g, docs), slice |-> Sliced(g, t, docs), fields |-> FieldIds(g, t, docs),
                    loose |-> t[1] \notin RealNS(g, docs), set |-> Array(t)]]]

-----------------------------------------------------------------------------
Init == st = [c \in Configs |-> [s \in Settings |-> <<>>]] /\ undone = [c \in Configs |-> [s \in Settings |-> <<>>]] /\ hist = <<>>

\* Each step is followed by the generation of a source.
Step(op) == \E c \in Pick(Configs), docs \in IF Sim THEN Pick({{"urn:a"}, {"urn:a", "urn:b"}}) ELSE {IF Len(hist) % 2 = 0 THEN {"urn:a"} ELSE {"urn:a", "urn:b"}} :
  LET g == [s \in Settings |-> IF st'[c][s] = <<>> THEN Initial[s] ELSE Last(st'[c][s]).v] IN
  hist' = Append(hist, [op |-> op, gen |-> c, docs |-> docs, logs |-> IF g.lvl = 5 THEN g.out ELSE "", exp |-> Expect(g, docs)])

\* the history of a configuration after the options os; only the last one
\* can be reverted
RECURSIVE Push(_, _)
Push(h, os) ==
  IF os = <<>> THEN h
  ELSE LET s == Option(Head(os))[1]  v == IF h[s] = <<>> THEN Initial[s] ELSE Last(h[s]).v IN
       Push([h EXCEPT ![s] = Append(@, [v |-> After(Head(os), v), tok |-> Len(os) = 1])], Tail(os))
\* (the functions p and q append a field each and must not be used twice)
Twice(h) == LET p == IF h["proc"] = <<>> THEN <<>> ELSE Last(h["proc"]).v IN \E i, j \in DOMAIN p : i # j /\ p[i] = p[j] /\ p[i] \in {"p", "q"}
Apply(c, os) ==
  LET h == Push(st[c], os) IN
  /\ ~Twice(h)
  /\ st' = [st EXCEPT ![c] = h]
  /\ undone' = [undone EXCEPT ![c] = [s \in Settings |-> IF \E i \in DOMAIN os : Option(os[i])[1] = s THEN <<>> ELSE @[s]]]
  /\ Step([do |-> "set", c |-> c, s |-> Option(Last(os))[1], opts |-> os])
Revert(c, s) ==
  /\ st[c][s] # <<>> /\ Last(st[c][s]).tok
  /\ st' = [st EXCEPT ![c][s] = Front(@)]
  /\ undone' = [undone EXCEPT ![c][s] = Append(@, Last(st[c][s]).v)]
  /\ Step([do |-> "undo", c |-> c, s |-> s, opts |-> <<>>])
Again(c, s) ==
  /\ undone[c][s] # <<>>
  /\ st' = [st EXCEPT ![c][s] = Append(@, [v |-> Last(undone[c][s]), tok |-> TRUE])]
  /\ undone' = [undone EXCEPT ![c][s] = Front(@)]
  /\ Step([do |-> "redo", c |-> c, s |-> s, opts |-> <<>>])
Bad(c) == \* a source that cannot be generated leaves everything as it is
  /\ UNCHANGED <<st, undone>>
  /\ Step([do |-> "bad", c |-> c, s |-> "", opts |-> <<>>])

Undoable == {x \in Configs \X Settings : st[x[1]][x[2]] # <<>> /\ Last(st[x[1]][x[2]]).tok}
Redoable == {x \in Configs \X Settings : undone[x[1]][x[2]] # <<>>}
Many == {Defaults} \cup UNION {[1..n -> Catalog] : n \in 2..MaxMany}
Next ==
  /\ Len(hist) < MaxSteps
  /\ LET what == IF Sim THEN {RandomElement({"set", "many", "undo1", "undo2", "undo3", "redo1", "redo2", "bad"})} ELSE {"set", "many", "undo1", "redo1", "bad"} IN
     \/ "set" \in what /\ \E c \in Pick(Configs), o \in Pick(Catalog) : Apply(c, <<o>>)
     \/ "many" \in what /\ \E c \in Pick(Configs), os \in (IF Sim THEN {RandomElement({Defaults, RandomElement([1..2 -> Catalog]), RandomElement([1..3 -> Catalog])})} ELSE Many) : Apply(c, os)
     \/ what \cap {"undo1", "undo2", "undo3"} # {} /\ Undoable # {} /\ \E x \in Pick(Undoable) : Revert(x[1], x[2])
     \/ what \cap {"redo1", "redo2"} # {} /\ Redoable # {} /\ \E x \in Pick(Redoable) : Again(x[1], x[2])
     \/ "bad" \in what /\ \E c \in Pick(Configs) : Bad(c)
     \/ Sim /\ \E c \in Pick(Configs), o \in Pick(Catalog) : Apply(c, <<o>>)
Spec == Init /\ [][Next]_vars

(* Reverting gives exactly the previous setting and no other one changes;   *)
(* applying again gives what was reverted.                                  *)
OneSetting == [][\A c \in Configs : \A s \in Settings :
   /\ Len(st'[c][s]) < Len(st[c][s]) => st'[c][s] = Front(st[c][s]) /\ \A r \in Settings \ {s} : st'[c][r] = st[c][r]
   /\ hist' # hist /\ Last(hist').op.c # c => st'[c] = st[c]]_vars
\* What must be generated may be, and is complete.
Sane == hist # <<>> => \A c \in Configs : \A docs \in {{"urn:a"}, {"urn:a", "urn:b"}} :
   LET g == Cfg(c) IN Fails(g, docs) \/ (Must(g, docs) \subseteq May(g, docs) /\ \A t \in Must(g, docs) : Kids(g, t) \subseteq Must(g, docs))

Emit == Len(hist) = MaxSteps => CSVWrite("%1$s", <<ToJson([k |-> "options", steps |-> hist])>>, IOEnv.OUT)
=============================================================================
