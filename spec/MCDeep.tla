------------------------------- MODULE MCDeep -------------------------------
(***************************************************************************)
(* Nesting depth.  Documents of ordinary depth must be handled whole; far  *)
(* beyond it they must be refused with an error, not by exhausting the     *)
(* stack.  Where exactly the limit lies is not specified.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Steps, Safe, Refused, Shapes
VARIABLES depth, shape
Init == depth = 1 /\ shape \in Shapes
Deeper == \E k \in Steps : depth * k <= Refused /\ depth' = depth * k /\ UNCHANGED shape
Spec == Init /\ [][Deeper]_<<depth, shape>>
Verdict == CASE depth <= Safe -> "ok" [] depth >= Refused -> "err" [] OTHER -> "any"
Emit == CSVWrite("%1$s", <<ToJson([k |-> "deep", depth |-> depth, shape |-> shape, verdict |-> Verdict])>>, IOEnv.OUT)
=============================================================================
