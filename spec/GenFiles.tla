------------------------------ MODULE GenFiles ------------------------------
(***************************************************************************)
(* Schema in several files that import and include each other, in any      *)
(* graph, and the commands that generate one Go source from them: which    *)
(* files are read, each of them once, which types are declared, and when   *)
(* and where the output is written.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS NFiles, Sim, Clean   \* Clean: no missing files
VARIABLES phase, files, run, todo, done, steps
vars == <<phase, files, run, todo, done, steps>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Files == 1..NFiles
Missing == 99   \* a location at which there is no file
Nowhere == 0    \* an import without a location

-----------------------------------------------------------------------------
(* Writing the files: file f declares the type Tf in its namespace; uses    *)
(* says which other types it refers to.                                     *)
NS == {"urn:a", "urn:b", "urn:c"}
Targets == Files \cup (IF Clean THEN {} ELSE {Missing, Nowhere})
Styles == <<"rel", "dot", "up", "abs">>
Init == /\ phase = "files" /\ files = <<>> /\ run = <<>> /\ todo = {} /\ done = {} /\ steps = 0

WriteFile ==
  /\ phase = "files" /\ Len(files) < NFiles
  /\ LET f == Len(files) + 1 IN
     \E dir \in IF Sim THEN Pick(0..3) ELSE {f % 3}, ns \in IF Sim THEN Pick(NS) ELSE {IF f = 3 THEN "urn:a" ELSE <<"urn:a", "urn:b">>[f]},
        to \in IF Sim THEN {RandomSubset(RandomElement(0..3), Targets)} ELSE SUBSET Targets, w \in Pick(IF Sim THEN {TRUE, FALSE, FALSE, FALSE} ELSE {FALSE}) :
       LET seq == SetToSeq(to)
           imps == [i \in DOMAIN seq |-> [to |-> seq[i], style |-> Styles[((IF Sim THEN RandomElement(0..3) ELSE f + seq[i]) % 4) + 1]]]
           uses == {t \in to : t \in Files /\ (~Sim \/ RandomElement({TRUE, TRUE, FALSE}))}
       IN files' = Append(files, [dir |-> dir, ns |-> ns, imps |-> imps, uses |-> uses, wrap |-> w])
  /\ phase' = IF Len(files') = NFiles THEN "run" ELSE "files"
  /\ UNCHANGED <<run, todo, done, steps>>

Runs == [roots : {<<1>>, <<1, 2>>, <<2, 1, 1>>}, follow : BOOLEAN, ns : {{}, {"urn:a"}, {"urn:a", "urn:b"}}, rules : 0..2,
         out : {"", "out.go", "nodir/out.go"}, exists : BOOLEAN, pkg : {"", "p"}, verb : 0..2]
Start ==
  /\ phase = "run"
  /\ \E r \in IF Sim THEN {[roots |-> RandomElement({<<1>>, <<2>>, <<1, 2>>, <<2, 1, 1>>, <<3, 1>>} \cup IF Clean THEN {} ELSE {<<1, Missing>>}), follow |-> RandomElement({TRUE, TRUE, FALSE}),
                           ns |-> RandomElement({{}, {}, {"urn:a"}, {"urn:a", "urn:b"}}), rules |-> RandomElement(0..2), out |-> RandomElement({"", "out.go", "nodir/out.go"}),
                           exists |-> RandomElement(BOOLEAN), pkg |-> RandomElement({"", "p"}), verb |-> RandomElement(0..2)]}
              ELSE {[roots |-> ro, follow |-> TRUE, ns |-> {}, rules |-> 0, out |-> "out.go", exists |-> FALSE, pkg |-> "", verb |-> 0] : ro \in {<<1>>, <<2, 1, 1>>}} :
       run' = r /\ todo' = ToSet(r.roots)
  /\ phase' = "read"
  /\ UNCHANGED <<files, done, steps>>

(* Reading: in any order, each file once, and what it asks for if imports   *)
(* are followed.                                                            *)
Asks(f) == IF f \in Files THEN {files[f].imps[i].to : i \in DOMAIN files[f].imps} \ {Nowhere} ELSE {}
Read(f) ==
  /\ phase = "read" /\ f \in todo \ done
  /\ done' = done \cup {f}
  /\ todo' = todo \cup IF run.follow THEN Asks(f) ELSE {}
  /\ steps' = steps + 1
  /\ UNCHANGED <<phase, files, run>>
Finish == phase = "read" /\ todo \subseteq done /\ phase' = "end" /\ UNCHANGED <<files, run, todo, done, steps>>
Next == WriteFile \/ Start \/ (\E f \in (IF todo \ done = {} THEN {} ELSE IF Sim THEN Pick(todo \ done) ELSE {Min(todo \ done)}) : Read(f)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup UNION {Asks(f) : f \in S} IN IF more = S THEN S ELSE Reach(more)
\* Whatever the order, exactly the reachable files are read, once each.
ReadOnce == phase = "read" => steps = Cardinality(done)
ReadAll == phase = "end" => done = IF run.follow THEN Reach(ToSet(run.roots)) ELSE ToSet(run.roots)
Ends == <>(phase = "end")

NSofDone == {files[f].ns : f \in done \cap Files}
Fails == \/ Missing \in done
         \/ \E f \in done : ~(files[f].uses \subseteq done)
         \/ ~(run.ns \subseteq NSofDone)
Sel == IF run.ns = {} THEN NSofDone ELSE run.ns
RECURSIVE Used(_)
Used(S) == LET more == S \cup UNION {files[f].uses : f \in S} IN IF more = S THEN S ELSE Used(more)
Declared == IF Missing \in done \/ Fails THEN {} ELSE Used({f \in done : files[f].ns \in Sel})
NameOf(f) == <<"T", "Uni", "V">>[run.rules + 1] \o ToString(f)
Vector ==
  [k |-> "files", files |-> [f \in DOMAIN files |-> [dir |-> files[f].dir, ns |-> files[f].ns, imps |-> files[f].imps, uses |-> SetToSeq(files[f].uses), wrap |-> files[f].wrap]],
   run |-> [run EXCEPT !.ns = SetToSeq(run.ns)], read |-> SetToSeq(done \cap Files),
   err |-> Missing \in done \/ Fails, types |-> [i \in 1..Cardinality(Declared) |-> NameOf(SetToSeq(Declared)[i])]]
Emit == phase = "end" => CSVWrite("%1$s", <<ToJson(Vector)>>, IOEnv.OUT)
=============================================================================
