------------------------------ MODULE WsdlClient ------------------------------
(***************************************************************************)
(* Clients generated from WSDL definitions: which methods a client has     *)
(* after any history of options, and what happens when these methods are   *)
(* called, by several callers at once, with a service that answers in any  *)
(* order, or not properly, or not at all.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils

CONSTANTS Sim, Mode,      \* "gen": histories of options; "run": calls
          MaxSteps, MaxCalls,
          ReqHooks, RspHooks \* what hooks do
VARIABLES phase, def, cfg, undo, steps, calls, trace
vars == <<phase, def, cfg, undo, steps, calls, trace>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* Types of parts: the Go type that the caller sees, and values with their  *)
(* lexical and canonical forms.  The declared ones are in a fixed schema.    *)
V(w, c) == [w |-> w, c |-> c]
Kinds == [string |-> [go |-> "string", vals |-> <<V("some text", "some text"), V("a<b&c", "a<b&c")>>],
          int |-> [go |-> "int", vals |-> <<V("5", "5"), V("-17", "-17"), V("0", "0")>>],
          boolean |-> [go |-> "bool", vals |-> <<V("true", "true"), V("0", "false")>>],
          double |-> [go |-> "float64", vals |-> <<V("1.5", "1.5"), V("-2E3", "-2000")>>],
          date |-> [go |-> "time.Time", vals |-> <<V("2001-02-03", "2001-02-03T00:00:00Z"), V("2001-02-03+02:00", "2001-02-03T00:00:00+02:00")>>],
          dateTime |-> [go |-> "time.Time", vals |-> <<V("2001-02-03T04:05:06.5Z", "2001-02-03T04:05:06.5Z"), V("2001-02-03T04:05:06", "2001-02-03T04:05:06Z")>>],
          gYear |-> [go |-> "time.Time", vals |-> <<V("2001", "2001-01-01T00:00:00Z")>>],
          hexBinary |-> [go |-> "[]byte", vals |-> <<V("00ffA0", "00ffa0"), V("61", "61")>>],
          base64Binary |-> [go |-> "[]byte", vals |-> <<V("AP8=", "00ff"), V(" YQ== ", "61")>>],
          cplx |-> [go |-> "Cplx", vals |-> <<V("<q:v xmlns:q=\"urn:t\">7</q:v>", "7"), V("<v xmlns=\"urn:t\">-1</v>", "-1")>>],
          lst |-> [go |-> "Lst", vals |-> <<V("1 2 3", "1 2 3"), V(" 4", "4")>>],
          dt |-> [go |-> "Dt", vals |-> <<V("2001-02-03", "2001-02-03T00:00:00Z")>>],
          elC |-> [go |-> "Cplx", vals |-> <<V("<q:v xmlns:q=\"urn:t\">7</q:v>", "7")>>],
          elS |-> [go |-> "string", vals |-> <<V("some text", "some text"), V(" x ", " x ")>>],
          elD |-> [go |-> "time.Time", vals |-> <<V("2001-02-03", "2001-02-03T00:00:00Z")>>],
          elAnon |-> [go |-> "ElAnon", vals |-> <<V("<w xmlns=\"urn:t\">in</w>", "in")>>]]
ElKinds == {"elC", "elS", "elD", "elAnon"}
RpcKinds == DOMAIN Kinds \ ElKinds

(* Names and the exported Go identifiers for them.                          *)
OpNames == {"getA", "GetA", "get-A", "set", "do", "HTTPClient", "type", "x.y"}
Exported(n) == CASE n \in {"getA", "GetA", "get-A"} -> "GetA" [] n = "set" -> "Set" [] n = "do" -> "Do" [] n = "type" -> "Type" [] n = "x.y" -> "Xy" [] OTHER -> n
Ruled(n) == CASE n = "getA" -> "FetchA" [] n = "get-A" -> "FetchA" [] OTHER -> Exported(n)
PartNames == {"a", "A", "b", "ctx", "err", "input", "output", "string", "time", "a-b", "type", "XMLName", "xml", "nil"}
Field(n) == CASE n \in {"a", "A"} -> "A" [] n = "a-b" -> "AB" [] n = "b" -> "B" [] n = "ctx" -> "Ctx" [] n = "err" -> "Err" [] n = "input" -> "Input" [] n = "output" -> "Output"
              [] n = "string" -> "String" [] n = "time" -> "Time" [] n = "type" -> "Type" [] n = "xml" -> "Xml" [] n = "nil" -> "Nil" [] OTHER -> n
MsgNames == {"In", "Out", "getARequest", "getAResponse", "Client", "cplx", "a-msg"}

Part(n, k) == [n |-> n, k |-> k]
Msg(n, parts) == [n |-> n, parts |-> parts]
Op(n, in, out, action) == [n |-> n, in |-> in, out |-> out, action |-> action, doc |-> ""]
Port(n, pt) == [n |-> n, pt |-> pt, verb |-> "-", svc |-> 1]
Small == [msgs |-> <<Msg("In", <<Part("a", "string"), Part("b", "date")>>), Msg("Out", <<Part("a", "int")>>), Msg("E", <<Part("a", "elC")>>)>>,
          pts |-> <<<<Op("getA", 1, 2, "urn:act"), Op("set", 3, 0, "")>>>>, ports |-> <<Port("P1", 1), Port("P2", 1)>>, ext |-> FALSE, client |-> FALSE, doc |-> ""]

(* Random definitions.                                                      *)
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
RandomParts(el) == LET n == RandomElement({0, 1, 1, 2, 2, 3, 4, 5})
                       ns == SetToSeq(PartNames)
                       off == RandomElement(0..(Len(ns) - 1))
                       mul == RandomElement({1, 3, 5})
                       m == IF el THEN (IF n > 3 THEN 3 ELSE n) ELSE n
                       els == SetToSeq(ElKinds)
                   IN [i \in 1..m |-> Part(ns[((off + mul * i) % Len(ns)) + 1], IF el THEN els[((off + i) % 4) + 1] ELSE RandomElement(RpcKinds))]
\* (The condition depends on the state, so that TLC does not evaluate this once.)
RandomDef == IF phase # "start" THEN Small ELSE
             LET nm == RandomElement(2..5)
                 names == SetToSeq(MsgNames)
                 off == RandomElement(0..(Len(names) - 1))
                 msgs == [i \in 1..nm |-> Msg(names[((off + i) % Len(names)) + 1], TLCEval(RandomParts(RandomElement(1..3) = 1)))]
                 op(j, o) == LET on == SetToSeq(OpNames) IN
                   [n |-> on[((o + j) % Len(on)) + 1], in |-> RandomElement({0} \cup 1..nm), out |-> RandomElement({0} \cup 1..nm), action |-> RandomElement({"", "urn:act" \o ToString(j), "http://h/a?b"}),
                    doc |-> RandomElement({"", "does it"})]
                 npt == RandomElement(1..2)
                 pts == [i \in 1..npt |-> LET o == RandomElement(0..7) IN [j \in 1..RandomElement(1..3) |-> op(j, o)]]
             IN [msgs |-> msgs, pts |-> pts,
                 ports |-> [i \in 1..RandomElement(1..3) |-> [n |-> "P" \o ToString(i), pt |-> RandomElement(1..npt), verb |-> IF Mode = "gen" THEN RandomElement({"-", "-", "GET", "post"}) ELSE "-", svc |-> RandomElement(1..2)]],
                 ext |-> RandomElement(BOOLEAN), client |-> RandomElement(1..4) = 1, doc |-> RandomElement({"", "of a service"})]

-----------------------------------------------------------------------------
(* Options.                                                                 *)
Zero == [pkg |-> "", comment |-> "", all |-> TRUE, ports |-> {}, in |-> 0, out |-> 0, rule |-> FALSE, log |-> 0]
Init == /\ phase = "start" /\ def = Small /\ cfg = Zero /\ undo = <<>> /\ steps = <<>> /\ calls = <<>> /\ trace = <<>>
Define == /\ phase = "start"
          /\ def' = IF Sim THEN TLCEval(RandomDef) ELSE Small
          /\ phase' = "config"
          /\ UNCHANGED <<cfg, undo, steps, calls, trace>>

Opt(s, v) == [s |-> s, v |-> v]
Value(s) == CASE s = "pkg" -> cfg.pkg [] s = "comment" -> cfg.comment [] s = "ports" -> [all |-> cfg.all, ports |-> cfg.ports]
              [] s = "in" -> cfg.in [] s = "out" -> cfg.out [] s = "rule" -> cfg.rule [] s = "log" -> cfg.log
With(c, s, v) == CASE s = "pkg" -> [c EXCEPT !.pkg = v] [] s = "comment" -> [c EXCEPT !.comment = v]
              [] s = "ports" -> [c EXCEPT !.all = v.all, !.ports = v.ports]
              [] s = "in" -> [c EXCEPT !.in = v] [] s = "out" -> [c EXCEPT !.out = v] [] s = "rule" -> [c EXCEPT !.rule = v] [] s = "log" -> [c EXCEPT !.log = v]
PortSets == {{}, {"P1"}, {"P2"}, {"P1", "P2"}, {"P1", "P3"}}
Options == {Opt("pkg", "p"), Opt("comment", "About it"), Opt("in", 1), Opt("in", 2), Opt("out", 1), Opt("out", 0), Opt("rule", TRUE)}
           \cup {Opt("ports", [all |-> FALSE, ports |-> S]) : S \in {{"P1"}, {"P2"}}}
MoreOptions == Options \cup {Opt("pkg", "ws"), Opt("comment", ""), Opt("in", 3), Opt("out", 2), Opt("in", 5), Opt("out", 4), Opt("log", 0), Opt("log", 1), Opt("log", 5)}
           \cup {Opt("ports", [all |-> FALSE, ports |-> S]) : S \in PortSets}
Step(a) == steps' = Append(steps, a)
Configuring == phase = "config" /\ Len(steps) < MaxSteps
Apply == /\ Configuring
         /\ \E o \in IF Sim THEN Pick(MoreOptions) ELSE Options :
              \* rules add up, so that they are applied once only
              /\ (o.s = "rule" => ~cfg.rule)
              /\ cfg' = With(cfg, o.s, o.v)
              /\ undo' = Append(undo, Opt(o.s, Value(o.s)))
              /\ Step([a |-> "apply", o |-> o, k |-> 0])
         /\ UNCHANGED <<phase, def, calls, trace>>
\* Applying what an option returned.
Revert == /\ Configuring /\ undo # <<>>
          /\ \E k \in Pick(DOMAIN undo) :
               /\ cfg' = With(cfg, undo[k].s, undo[k].v)
               /\ undo' = Append(undo, Opt(undo[k].s, Value(undo[k].s)))
               /\ Step([a |-> "revert", o |-> undo[k], k |-> k])
          /\ UNCHANGED <<phase, def, calls, trace>>

-----------------------------------------------------------------------------
(* The methods of a client.                                                 *)
Selected == SelectSeq(def.ports, LAMBDA p : cfg.all \/ p.n \in cfg.ports)
\* The operations of the selected ports, in order.
Ops == FlattenSeq([i \in DOMAIN Selected |-> [j \in DOMAIN def.pts[Selected[i].pt] |-> [port |-> Selected[i].n, verb |-> Selected[i].verb, op |-> def.pts[Selected[i].pt][j]]]])
RECURSIVE Free(_, _)
Free(n, used) == IF n \in used THEN Free(n \o "_", used) ELSE n
RECURSIVE NamesFor(_, _)
NamesFor(ops, used) ==
  IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops)
           n == IF cfg.rule THEN Ruled(o.op.n) ELSE Exported(o.op.n)
           m == Free(IF n \in used THEN n \o "_" \o o.port ELSE n, used)
       IN <<m>> \o NamesFor(Tail(ops), used \cup {m})
Methods == NamesFor(Ops, {"HTTPClient", "RequestHook", "ResponseHook"})
PartsOf(m) == IF m = 0 THEN <<>> ELSE def.msgs[m].parts
RECURSIVE FieldsFor(_, _)
FieldsFor(parts, used) == IF parts = <<>> THEN <<>> ELSE LET f == Free(Field(Head(parts).n), used) IN <<f>> \o FieldsFor(Tail(parts), used \cup {f})
Fields(m) == FieldsFor(PartsOf(m), {"XMLName"})
GoTypes(m) == [i \in DOMAIN PartsOf(m) |-> Kinds[PartsOf(m)[i].k].go]
Wraps(m, max) == Len(PartsOf(m)) > max
Method(i) == LET o == Ops[i].op IN
  [name |-> Methods[i], port |-> Ops[i].port, verb |-> IF Ops[i].verb = "GET" THEN "GET" ELSE "POST", op |-> o.n, action |-> o.action, doc |-> o.doc,
   in |-> PartsOf(o.in), out |-> PartsOf(o.out), gin |-> GoTypes(o.in), gout |-> GoTypes(o.out), fin |-> Fields(o.in), fout |-> Fields(o.out),
   win |-> Wraps(o.in, cfg.in), wout |-> Wraps(o.out, cfg.out), oneway |-> o.out = 0]
AllMethods == [i \in DOMAIN Ops |-> Method(i)]
Pkg == IF cfg.pkg = "" THEN "ws" ELSE cfg.pkg
Comment == IF cfg.comment = "" THEN "Package " \o Pkg ELSE cfg.comment

\* One method for each operation, and no two of one name.
OneForEach == Len(Methods) = Len(Ops) /\ Distinct(Methods)
\* What was reverted leaves no trace.
Reverts == \A k \in DOMAIN undo : With(With(cfg, undo[k].s, undo[k].v), undo[k].s, Value(undo[k].s)) = cfg

Generate ==
  /\ phase = "config" /\ (Sim => (Len(steps) = MaxSteps \/ RandomElement(1..3) = 1))
  /\ Len(SelectSeq(trace, LAMBDA t : t.a = "gen")) < 3
  /\ (trace # <<>> => trace[Len(trace)].at # Len(steps))
  /\ trace' = Append(trace, [a |-> "gen", at |-> Len(steps), pkg |-> Pkg, comment |-> Comment, methods |-> AllMethods, log |-> cfg.log, cfg |-> [cfg EXCEPT !.ports = SetToSeq(@)]])
  /\ phase' = IF Mode = "run" THEN "calls" ELSE IF Len(steps) = MaxSteps THEN "end" ELSE "config"
  /\ UNCHANGED <<def, cfg, undo, steps, calls>>

-----------------------------------------------------------------------------
(* Calls.                                                                   *)
Answers == {"ok", "okx", "fault", "fault500", "html", "empty", "cut", "neterr", "other"}
Ready == phase = "calls" /\ Ops # <<>>
Call(m, hooks) == [m |-> m, st |-> "sent", args |-> <<>>, rets |-> <<>>, answer |-> "", closed |-> TRUE, err |-> FALSE, hooks |-> hooks]
ValueFor(k) == LET n == Len(Kinds[k].vals) IN IF Sim THEN Kinds[k].vals[RandomElement(1..n)] ELSE Kinds[k].vals[1]
Start ==
  /\ Ready /\ Len(calls) < MaxCalls
  /\ \E i \in IF Sim THEN Pick(DOMAIN Ops) ELSE DOMAIN Ops, req \in Pick(ReqHooks), rsp \in Pick(RspHooks), d \in IF Sim THEN Pick(BOOLEAN) ELSE {FALSE} :
       LET h == IF calls = <<>> THEN [req |-> req, rsp |-> rsp, dflt |-> d] ELSE calls[1].hooks IN
       /\ (calls # <<>> /\ ~Sim => req = "none" /\ rsp = "none")   \* a client has the same hooks for all calls
       /\ calls' = Append(calls, [Call(i, h) EXCEPT !.args = [j \in DOMAIN Method(i).in |-> TLCEval(ValueFor(Method(i).in[j].k))]])
       /\ trace' = Append(trace, [a |-> "start", at |-> Len(calls) + 1, ret |-> <<>>])
  /\ UNCHANGED <<phase, def, cfg, undo, steps>>
Waiting == {i \in DOMAIN calls : calls[i].st = "sent"}
\* The service answers.  A one-way operation may be answered with nothing.
Good(i, a) == a \in {"ok", "okx"} \/ (a = "empty" /\ Method(calls[i].m).oneway)
\* A hook that has another body for the response makes up for all but a broken connection.
Err(i, a) == IF calls[i].hooks.rsp = "body" THEN a = "neterr" ELSE ~Good(i, a)
Answer ==
  /\ phase = "calls"
  /\ \E i \in (IF Waiting = {} THEN {} ELSE Pick(Waiting)) : \E a \in IF Sim THEN {IF RandomElement(1..3) = 1 THEN RandomElement(Answers) ELSE RandomElement({"ok", "okx"})} ELSE {"ok", "fault", "empty", "neterr"} :
       LET m == Method(calls[i].m)
           ret == [j \in DOMAIN m.out |-> TLCEval(ValueFor(m.out[j].k))] IN
       /\ calls' = [calls EXCEPT ![i].st = "done", ![i].answer = a, ![i].err = Err(i, a), ![i].rets = ret, ![i].closed = TRUE]
       /\ trace' = Append(trace, [a |-> "answer", at |-> i, ret |-> ret])
  /\ UNCHANGED <<phase, def, cfg, undo, steps>>
\* The caller gives up.
Cancel ==
  /\ phase = "calls"
  /\ \E i \in (IF Waiting = {} THEN {} ELSE Pick(Waiting)) :
       /\ (Sim => RandomElement(1..4) = 1)
       /\ calls' = [calls EXCEPT ![i].st = "done", ![i].answer = "cancel", ![i].err = TRUE]
       /\ trace' = Append(trace, [a |-> "cancel", at |-> i, ret |-> <<>>])
  /\ UNCHANGED <<phase, def, cfg, undo, steps>>
Finish == /\ phase = "calls" /\ Waiting = {} /\ (Len(calls) = MaxCalls \/ Ops = <<>>) /\ phase' = "end"
          /\ UNCHANGED <<def, cfg, undo, steps, calls, trace>>
Next == Define \/ Apply \/ Revert \/ Generate \/ Start \/ Answer \/ Cancel \/ Finish
Spec == Init /\ [][Next]_vars

\* A call succeeds exactly if it was answered well, whatever other calls do.
ErrIffBad == \A i \in DOMAIN calls : calls[i].st = "done" => (calls[i].err <=> (calls[i].answer = "cancel" \/ Err(i, calls[i].answer)))
\* What was answered to a call is what it returns.
OwnAnswer == \A i \in DOMAIN calls : calls[i].st = "done" /\ ~calls[i].err => Len(calls[i].rets) = Len(Method(calls[i].m).out)
\* Calls that are done stay as they are.
Final == [][\A i \in DOMAIN calls : calls[i].st = "done" => calls'[i] = calls[i]]_vars

Emit == phase = "end" => CSVWrite("%1$s", <<ToJson([k |-> IF Mode = "gen" THEN "wsdlgen" ELSE "wsdlrun", def |-> def,
          steps |-> [i \in DOMAIN steps |-> LET o == steps[i].o IN [a |-> steps[i].a, k |-> steps[i].k, s |-> o.s, v |-> ToString(o.v),
                                                                    ports |-> IF o.s = "ports" THEN SetToSeq(o.v.ports) ELSE <<>>]],
          trace |-> trace, calls |-> calls])>>, IOEnv.OUT)
=============================================================================
