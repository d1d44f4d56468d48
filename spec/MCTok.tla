-------------------------------- MODULE MCTok --------------------------------
(***************************************************************************)
(* The pushdown automaton that decides which token streams are documents:  *)
(* every start tag is closed by the same tag, in order, and the input does *)
(* not end before the root element does.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxToks, Tags
VARIABLES toks, stack, status, n
vars == <<toks, stack, status, n>>

\* status: "prolog" (no root yet), "in" (inside root), "ok", "err"
Init == toks = <<>> /\ stack = <<>> /\ status = "prolog" /\ n = 0

Put(t) == toks' = Append(toks, t)
Live == status \in {"prolog", "in"} /\ Len(toks) < MaxToks

Start == Live /\ \E g \in Tags :
   /\ Put([t |-> "start", g |-> g]) /\ stack' = Append(stack, g) /\ status' = "in" /\ n' = n + 1
Empty == Live /\ \E g \in Tags :
   /\ Put([t |-> "empty", g |-> g]) /\ UNCHANGED stack /\ n' = n + 1
   /\ status' = IF stack = <<>> THEN "ok" ELSE "in"
End == Live /\ \E g \in Tags :
   /\ Put([t |-> "end", g |-> g]) /\ UNCHANGED n
   /\ IF stack # <<>> /\ stack[Len(stack)] = g
      THEN /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
           /\ status' = IF Len(stack) = 1 THEN "ok" ELSE "in"
      ELSE stack' = stack /\ status' = "err"
\* comments, processing instructions, character data, CDATA
Misc == Live /\ \E m \in {"comment", "pi", "text", "cdata"} :
   /\ (m \in {"text", "cdata"} => status = "in")
   /\ Put([t |-> m, g |-> ""]) /\ UNCHANGED <<stack, status, n>>
\* something that is not a token at all
Junk == Live /\ \E m \in {"lt", "badattr", "badent", "badname"} :
   /\ (m = "badent" => status = "in")
   /\ Put([t |-> m, g |-> ""]) /\ status' = "err" /\ UNCHANGED <<stack, n>>
\* the input ends here
Eof == Live /\ Put([t |-> "eof", g |-> ""]) /\ status' = "err" /\ UNCHANGED <<stack, n>>
Next == Start \/ Empty \/ End \/ Misc \/ Junk \/ Eof
Spec == Init /\ [][Next]_vars

OkMeansClosed == status = "ok" => stack = <<>> /\ n >= 1
Emit == status \in {"ok", "err"} =>
   CSVWrite("%1$s", <<ToJson([k |-> "tok", toks |-> toks, ok |-> status = "ok", n |-> n])>>, IOEnv.OUT)
=============================================================================
