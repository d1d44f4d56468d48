------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* A directory in which somebody writes, copies and removes files and runs *)
(* xsdgen, wsdlgen and xsdparse on them, again and again.  Each run either *)
(* fails, says why and leaves every file as it was, or writes one source,  *)
(* or prints normalised schema, which depend on its arguments and on the   *)
(* files that it reads as they are at that time: not on earlier runs, what *)
(* was in the file that it writes, or how the arguments are spelled.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils

CONSTANTS Sim, MaxSteps,
          Small     \* few arguments
VARIABLES fs, hist
vars == <<fs, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* Files.  What is written by hand is a schema, a definition, or neither.   *)
Inputs == {"a.xsd", "b.xsd", "s.wsdl"}
Outputs == {"out.go", "xsdgen_output.go", "wsdlgen_output.go"}
Names == Inputs \cup Outputs
None == [k |-> "none", of |-> "", v |-> 0]
Src(of, v) == [k |-> "src", of |-> of, v |-> v]
Junk(v) == [k |-> "junk", of |-> "", v |-> v]
Old == [k |-> "old", of |-> "", v |-> 0]   \* a longer Go source
Gen(i) == [k |-> "gen", of |-> "", v |-> i] \* what step i generated

TargetNS(c) == CASE c.of = "a.xsd" -> "urn:a" [] c.of = "b.xsd" -> "urn:b" [] c.of = "s.wsdl" -> "urn:w"
TypesIn(c) == CASE c.of = "a.xsd" -> IF c.v = 1 THEN {<<"T">>} ELSE {<<"T">>, <<"W">>}
                [] c.of = "b.xsd" -> {<<"U">>}
                [] c.of = "s.wsdl" -> IF c.v = 1 THEN {<<"Q">>} ELSE {<<"Q">>, <<"R">>}
NeedsA(c) == c.k = "src" /\ c.of = "b.xsd" /\ c.v = 1   \* U has an element of type T and imports a.xsd
\* operations of the ports of the definition
PortsOf(c) == IF c.v = 1 THEN [P1 |-> {"GetA"}, P2 |-> {"SetA"}] ELSE [P1 |-> {"GetA", "DelA"}, P2 |-> {}]

-----------------------------------------------------------------------------
(* Arguments.  spell says how they are spelled, which makes no difference.  *)
Rules == {"tx", "t0", "xy"}
Apply(r, name) ==
  FoldLeft(LAMBDA acc, ch : CASE r = "tx" /\ ch = "T" -> Append(acc, "X") [] r = "t0" /\ ch = "T" -> acc \o <<"T", "Z">> [] r = "xy" /\ ch = "X" -> Append(acc, "Y") [] OTHER -> Append(acc, ch), <<>>, name)
Ident(rules, name) == FoldLeft(LAMBDA acc, ch : acc \o ch, "", FoldLeft(LAMBDA acc, r : Apply(r, acc), name, rules))

Usages == {"ok", "nofiles", "badflag", "norule", "badrule"}
Args(cmd) ==
  [cmd : {cmd}, roots : IF Small THEN {<<"a.xsd">>, <<"b.xsd">>, <<"s.wsdl">>, <<"b.xsd", "a.xsd">>}
                        ELSE {<<"a.xsd">>, <<"b.xsd">>, <<"s.wsdl">>, <<"b.xsd", "a.xsd">>, <<"a.xsd", "b.xsd">>, <<"s.wsdl", "a.xsd">>, <<"s.wsdl", "b.xsd", "a.xsd">>,
                              <<"a.xsd", "s.wsdl">>, <<"out.go">>, <<"a.xsd", "out.go">>, <<"a.xsd", "b.xsd", "a.xsd">>, <<"b.xsd", "b.xsd">>},
   out : IF cmd = "xsdparse" THEN {""} ELSE IF Small THEN {"", "out.go"} ELSE {"", "out.go", "a.xsd", "s.wsdl", "nodir/out.go", "dir"},
   ns : CASE cmd = "wsdlgen" -> {{}} [] cmd = "xsdparse" -> {{}, {"urn:a"}, {"urn:b"}} [] OTHER -> {{}, {"urn:a"}, {"urn:a", "urn:b"}, {"urn:w"}},
   follow : IF cmd = "xsdgen" THEN BOOLEAN ELSE {FALSE},
   rules : IF cmd = "xsdparse" THEN {<<>>} ELSE IF Small THEN {<<>>, <<"xy", "tx">>} ELSE {<<>>} \cup {<<r>> : r \in Rules} \cup {<<r, s>> : r, s \in Rules},
   pkg : IF cmd = "xsdparse" THEN {""} ELSE {"", "p"},
   comment : IF cmd = "wsdlgen" THEN {"", "Says hello"} ELSE {""},
   ports : IF cmd = "wsdlgen" THEN {{}, {"P1"}, {"P2"}, {"P1", "P2"}} ELSE {{}},
   verb : IF cmd = "xsdparse" THEN {0} ELSE 0..2,
   spell : 0..2, usage : {"ok"}]
\* one of them at random
AnyArgs(cmd) == LET f(S) == RandomElement(S) IN
  [cmd |-> cmd, roots |-> f(CASE cmd = "wsdlgen" -> {<<"s.wsdl">>, <<"s.wsdl", "a.xsd">>, <<"s.wsdl", "b.xsd", "a.xsd">>, <<"s.wsdl", "b.xsd">>, <<"a.xsd">>, <<"out.go">>}
                              [] cmd = "xsdgen" -> {<<"a.xsd">>, <<"b.xsd">>, <<"b.xsd">>, <<"s.wsdl">>, <<"b.xsd", "a.xsd">>, <<"a.xsd", "b.xsd">>, <<"s.wsdl", "b.xsd">>, <<"a.xsd", "b.xsd", "a.xsd">>, <<"out.go">>, <<"a.xsd", "out.go">>}
                              [] OTHER -> {<<"a.xsd">>, <<"b.xsd">>, <<"b.xsd", "a.xsd">>, <<"a.xsd", "b.xsd">>, <<"a.xsd", "s.wsdl", "b.xsd">>, <<"out.go">>, <<"a.xsd", "out.go">>}),
   out |-> IF cmd = "xsdparse" THEN "" ELSE f({<<"", 1>>, <<"", 2>>, <<"out.go", 1>>, <<"out.go", 2>>, <<"out.go", 3>>, <<"a.xsd", 1>>, <<"s.wsdl", 1>>, <<"nodir/out.go", 1>>, <<"dir", 1>>})[1],
   ns |-> f(CASE cmd = "wsdlgen" -> {{}} [] cmd = "xsdparse" -> {{}, {"urn:a"}, {"urn:b"}} [] OTHER -> {{}, {"urn:a"}, {"urn:a", "urn:b"}, {"urn:w"}}),
   follow |-> IF cmd = "xsdgen" THEN f(BOOLEAN) ELSE FALSE,
   rules |-> IF cmd = "xsdparse" THEN <<>> ELSE f({<<>>, <<f(Rules)>>, <<f(Rules), f(Rules)>>}),
   pkg |-> IF cmd = "xsdparse" THEN "" ELSE f({"", "p"}),
   comment |-> IF cmd = "wsdlgen" THEN f({"", "Says hello"}) ELSE "",
   ports |-> IF cmd = "wsdlgen" THEN f({{}, {"P1"}, {"P2"}, {"P1", "P2"}}) ELSE {},
   verb |-> IF cmd = "xsdparse" THEN 0 ELSE f({0, 0, 1, 2}),
   spell |-> f(0..2), usage |-> IF f(1..8) = 1 THEN f(Usages) ELSE "ok"]
FewArgs == {r \in UNION {Args(c) : c \in {"xsdgen", "wsdlgen", "xsdparse"}} : r.verb = 0 /\ r.spell = 0 /\ r.pkg = "" /\ r.comment = "" /\ r.ports \in {{}, {"P2"}} /\ Cardinality(r.ns) < 2
                /\ (r.cmd = "wsdlgen" => r.roots[1] = "s.wsdl" /\ r.rules = <<>>) /\ (r.ns = {"urn:w"} => r.roots[1] # "a.xsd")
                /\ (r.rules # <<>> => r.ns = {} /\ r.out = "" /\ ~r.follow)}

-----------------------------------------------------------------------------
(* What a run reads, and what comes of it.                                  *)
Add(s, n) == IF \E i \in DOMAIN s : s[i] = n THEN s ELSE Append(s, n)
ReadBy(r) == LET given == FoldLeft(Add, <<>>, r.roots)
             IN IF r.follow /\ (\E i \in DOMAIN given : NeedsA(fs[given[i]])) THEN Add(given, "a.xsd") ELSE given
Out(r) == IF r.cmd = "xsdparse" THEN "" ELSE IF r.out = "" THEN r.cmd \o "_output.go" ELSE r.out
Cannot(r) == r.usage # "ok" \/ Out(r) \in {"nodir/out.go", "dir"}
SrcSeq(names) == [i \in DOMAIN names |-> fs[names[i]]]
HasA(names) == \E i \in DOMAIN names : fs[names[i]].of = "a.xsd"
AllNS(names) == {TargetNS(fs[names[i]]) : i \in DOMAIN names}
Fails(r) ==
  LET names == ReadBy(r) IN
  \/ Cannot(r)
  \/ \E i \in DOMAIN names : fs[names[i]].k # "src"
  \/ r.cmd # "xsdparse" /\ (\E i \in DOMAIN names : NeedsA(fs[names[i]])) /\ ~HasA(names)
  \/ r.cmd = "xsdgen" /\ ~(r.ns \subseteq AllNS(names))
\* The same declarations twice make no sense, and neither does wsdlgen for a
\* schema.
Sensible(r) ==
  LET names == ReadBy(r) IN
  /\ \A i, j \in DOMAIN names : i # j /\ fs[names[i]].k = "src" => fs[names[i]].of # fs[names[j]].of
  /\ r.cmd = "wsdlgen" /\ fs[names[1]].k = "src" => fs[names[1]].of = "s.wsdl"
  /\ r.cmd = "wsdlgen" => \A i, j \in DOMAIN r.roots : i # j => r.roots[i] # r.roots[j]
  /\ r.cmd = "xsdparse" => \A i, j \in DOMAIN r.roots : i # j => r.roots[i] # r.roots[j]
Contents(r, names) == {fs[names[i]] : i \in DOMAIN names}
Selected(r, names) == {c \in Contents(r, names) : r.ns = {} \/ TargetNS(c) \in r.ns}
\* T is declared with U, which needs it.
TypesOf(r, names) ==
  LET sel == Selected(r, names)
      own == UNION {TypesIn(c) : c \in sel}
  IN {Ident(r.rules, t) : t \in own \cup IF \E c \in sel : NeedsA(c) THEN {<<"T">>} ELSE {}}
MethodsOf(r, names) == LET ps == PortsOf(fs[names[1]]) IN UNION {ps[p] : p \in IF r.ports = {} THEN {"P1", "P2"} ELSE r.ports}

NoRun == [cmd |-> "", roots |-> <<>>, out |-> "", ns |-> {}, follow |-> FALSE, rules |-> <<>>, pkg |-> "", comment |-> "", ports |-> {}, verb |-> 0, spell |-> 0, usage |-> ""]
Step(do, file, from, put) == [do |-> do, file |-> file, from |-> from, put |-> put, run |-> NoRun, fail |-> FALSE, read |-> <<>>, types |-> {}, methods |-> {}, print |-> <<>>]
StepOf(r) ==
  LET names == ReadBy(r)  fail == Fails(r)  gen == ~fail /\ r.cmd # "xsdparse" IN
  [do |-> "run", file |-> IF gen THEN Out(r) ELSE "", from |-> "", put |-> IF gen THEN Gen(Len(hist) + 1) ELSE None, run |-> r, fail |-> fail,
   read |-> names, types |-> IF gen THEN TypesOf(r, names) ELSE {}, methods |-> IF ~fail /\ r.cmd = "wsdlgen" THEN MethodsOf(r, names) ELSE {},
   print |-> IF fail \/ r.cmd # "xsdparse" THEN <<>>
             ELSE LET sel == SelectSeq(names, LAMBDA n : r.ns = {} \/ TargetNS(fs[n]) \in r.ns) IN [i \in DOMAIN sel |-> TargetNS(fs[sel[i]])]]

-----------------------------------------------------------------------------
Init == /\ fs = [n \in Names |-> IF n \in Inputs THEN Src(n, 1) ELSE None] /\ hist = <<>>
Room == Len(hist) < MaxSteps
Write == \E n \in Pick(Inputs), v \in Pick(1..2) : (Sim \/ fs[n] # Src(n, v)) /\ fs' = [fs EXCEPT ![n] = Src(n, v)] /\ hist' = Append(hist, Step("put", n, "", Src(n, v)))
Spoil == \E n \in Pick(Inputs), v \in Pick(IF Small THEN {1} ELSE 1..3) : (Sim \/ fs[n] # Junk(v)) /\ fs' = [fs EXCEPT ![n] = Junk(v)] /\ hist' = Append(hist, Step("put", n, "", Junk(v)))
Delete == \E n \in Pick(IF Sim THEN Names ELSE {m \in Names : fs[m] # None}) : fs' = [fs EXCEPT ![n] = None] /\ hist' = Append(hist, Step("put", n, "", None))
Hand == \E n \in Pick(Outputs) : (Sim \/ fs[n] # Old) /\ fs' = [fs EXCEPT ![n] = Old] /\ hist' = Append(hist, Step("put", n, "", Old))
Copy == \E n \in Pick({m \in Names : fs[m] # None} \cup {"s.wsdl"}), m \in Pick(Names) : fs' = [fs EXCEPT ![m] = fs[n]] /\ hist' = Append(hist, Step("copy", m, n, fs[n]))
Run == \E r \in IF Sim THEN {AnyArgs(RandomElement({"xsdgen", "xsdgen", "wsdlgen", "wsdlgen", "xsdparse"}))} ELSE FewArgs :
         \E q \in IF ~Sim \/ Sensible(r) THEN {r} ELSE {[r EXCEPT !.roots = <<IF r.cmd = "wsdlgen" THEN "s.wsdl" ELSE "a.xsd">>, !.follow = FALSE]} :
         /\ Sensible(q)
         /\ LET s == StepOf(q) IN hist' = Append(hist, s) /\ fs' = IF s.file = "" THEN fs ELSE [fs EXCEPT ![s.file] = s.put]
Next == Room /\ IF Sim
                THEN \E k \in Pick(1..20) :
                     IF k <= 13 THEN Run ELSE IF k = 14 THEN Write ELSE IF k = 15 THEN Spoil ELSE IF k = 16 THEN Delete ELSE IF k = 17 THEN Hand ELSE IF k = 18 THEN Copy
                     ELSE \E n \in Pick({m \in Inputs : fs[m].k # "src"} \cup {"a.xsd"}) : fs' = [fs EXCEPT ![n] = Src(n, RandomElement(1..2))] /\ hist' = Append(hist, Step("put", n, "", fs'[n]))
                ELSE (hist # <<>> /\ Last(hist).do # "run" /\ Run) \/ (hist = <<>> /\ Run) \/ (hist # <<>> /\ Last(hist).do = "run" /\ (Write \/ Spoil \/ Delete \/ Hand \/ Run))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NewRun == hist' # hist /\ Last(hist').do = "run"
\* a failing run, and one that prints, leaves everything; others change one file
Effect == [][NewRun => IF Last(hist').fail \/ Last(hist').run.cmd = "xsdparse" THEN fs' = fs
                       ELSE \A n \in Names : n # Out(Last(hist').run) => fs'[n] = fs[n]]_vars
\* what is generated depends on arguments and what is read
SameArgs(r, s) == [r EXCEPT !.spell = 0, !.verb = 0] = [s EXCEPT !.spell = 0, !.verb = 0]
Function == \A i, j \in DOMAIN hist :
  LET same == /\ i < j /\ hist[i].do = "run" /\ hist[j].do = "run" /\ SameArgs(hist[i].run, hist[j].run)
              /\ \A k \in i..(j - 1) : hist[k].file \notin ToSet(hist[i].read)
  IN same => [hist[j] EXCEPT !.put = None, !.run = NoRun] = [hist[i] EXCEPT !.put = None, !.run = NoRun]
Vector == [k |-> "commands", steps |-> [i \in DOMAIN hist |-> LET s == hist[i] IN
            [do |-> s.do, file |-> s.file, from |-> s.from, put |-> s.put, fail |-> s.fail, read |-> s.read, types |-> SetToSeq(s.types), methods |-> SetToSeq(s.methods), print |-> s.print,
             run |-> [s.run EXCEPT !.ns = SetToSeq(s.run.ns), !.ports = SetToSeq(s.run.ports)]]]]
Emit == (Len(hist) = MaxSteps /\ (Sim \/ hist[MaxSteps].do = "run")) => CSVWrite("%1$s", <<ToJson(Vector)>>, IOEnv.OUT)
=============================================================================
