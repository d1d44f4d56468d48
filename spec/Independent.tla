----------------------------- MODULE Independent -----------------------------
(***************************************************************************)
(* Several clients use the packages at the same time.  A client calls one  *)
(* of the operations on documents that everybody shares, reads results,    *)
(* also those of others, and changes everything in a result that nobody    *)
(* else is using.  A call is in progress from its Begin to its End; calls  *)
(* of different clients overlap in every way.                              *)
(*                                                                         *)
(* What a client sees in a result depends on the operation, the document   *)
(* and the changes made to this very result, and on nothing else: not on   *)
(* other calls before or at the same time, and not on changes of other     *)
(* results.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Sim,      \* random behaviours
          Clients, Ops, Inputs, Opts,
          MaxCalls  \* calls in a behaviour
VARIABLES busy, objs, hist, calls
vars == <<busy, objs, hist, calls>>

Pick(X) == IF Sim /\ X # {} THEN {RandomElement(X)} ELSE X
Wsdls == {"w1", "w2"}
\* what an operation is applied to
For(op) == CASE op \in {"wsdl", "client", "clientast", "clientcli"} -> Inputs \cap Wsdls
             [] op \in {"tree", "imports"} -> Inputs
             [] OTHER -> Inputs \ Wsdls
OptsFor(op) == IF op \in {"code", "ast", "source", "cli", "client", "clientast", "clientcli"} THEN Opts ELSE {0}
\* what cannot be changed; it remembers what it is asked for, so one client
\* at a time asks it
Fixed == {"code"}

Idle == [do |-> "idle", op |-> "", in |-> "", opt |-> 0, obj |-> 0]
Using(o) == {c \in Clients : busy[c].do # "idle" /\ busy[c].obj = o}
Together(o) == \A d \in Using(o) : busy[d].do = "look" /\ objs[o].op \notin Fixed
Event(c, e) == [c |-> c, e |-> e, do |-> busy'[c].do, op |-> busy'[c].op, in |-> busy'[c].in, opt |-> busy'[c].opt, obj |-> busy'[c].obj,
                n |-> IF busy'[c].obj \in DOMAIN objs' THEN objs'[busy'[c].obj].n ELSE 0]
Init == busy = [c \in Clients |-> Idle] /\ objs = <<>> /\ hist = <<>> /\ calls = 0

\* The number of a result is given when the call begins.
Room == calls < MaxCalls /\ calls' = calls + 1
Make(c) == /\ busy[c] = Idle /\ Room
           /\ \E op \in Pick({o \in Ops : For(o) # {}}) : \E in \in Pick(For(op)), opt \in Pick(OptsFor(op)) :
                /\ busy' = [busy EXCEPT ![c] = [do |-> "make", op |-> op, in |-> in, opt |-> opt, obj |-> Len(objs) + 1]]
                /\ objs' = Append(objs, [op |-> op, in |-> in, opt |-> opt, n |-> 0, made |-> FALSE])
           /\ hist' = Append(hist, Event(c, "begin"))
Free(o) == objs[o].made
Use(c, what, o) == /\ busy' = [busy EXCEPT ![c] = [do |-> what, op |-> objs[o].op, in |-> objs[o].in, opt |-> objs[o].opt, obj |-> o]]
                   /\ UNCHANGED objs /\ hist' = Append(hist, Event(c, "begin"))
Look(c) == /\ busy[c] = Idle /\ Room
           /\ \E o \in Pick({o \in DOMAIN objs : Free(o) /\ Together(o)}) : Use(c, "look", o)
Change(c) == /\ busy[c] = Idle /\ Room
             /\ \E o \in Pick({o \in DOMAIN objs : Free(o) /\ Using(o) = {} /\ objs[o].op \notin Fixed}) : Use(c, "change", o)
End(c) == /\ busy[c] # Idle
          /\ LET b == busy[c] IN
             /\ busy' = [busy EXCEPT ![c] = Idle]
             /\ objs' = CASE b.do = "make" -> [objs EXCEPT ![b.obj].made = TRUE]
                          [] b.do = "change" -> [objs EXCEPT ![b.obj].n = @ + 1]
                          [] b.do = "look" -> objs
             /\ hist' = Append(hist, [c |-> c, e |-> "end", do |-> b.do, op |-> b.op, in |-> b.in, opt |-> b.opt, obj |-> b.obj, n |-> objs'[b.obj].n])
          /\ UNCHANGED calls
\* In random behaviours most results are looked at after a change.
Next == IF Sim
        THEN \E c \in Pick(Clients), r \in {RandomElement(1..10)} :
               IF busy[c] # Idle THEN End(c)
               ELSE IF calls = MaxCalls THEN \E d \in Pick({d \in Clients : busy[d] # Idle}) : End(d)
               ELSE IF r <= 4 \/ ~\E o \in DOMAIN objs : Free(o) /\ Using(o) = {} THEN Make(c)
               ELSE IF r <= 8 \/ ~\E o \in DOMAIN objs : Free(o) /\ Using(o) = {} /\ objs[o].op \notin Fixed THEN Look(c)
               ELSE Change(c)
        ELSE \E c \in Clients : Make(c) \/ Look(c) \/ Change(c) \/ End(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A result is changed by those who change it, and its origin never changes.
Events(o, do, e) == {i \in DOMAIN hist : hist[i].obj = o /\ hist[i].do = do /\ hist[i].e = e}
Independence == \A o \in DOMAIN objs :
  /\ objs[o].n = Cardinality(Events(o, "change", "end"))
  /\ \A i \in Events(o, "look", "begin") : hist[i].n = Cardinality({j \in Events(o, "change", "end") : j < i})
  /\ \A i \in Events(o, "look", "begin") : hist[i].op = objs[o].op /\ hist[i].in = objs[o].in
Exclusive == \A o \in DOMAIN objs : Cardinality(Using(o)) > 1 => objs[o].op \notin Fixed /\ \A c \in Using(o) : busy[c].do = "look"

Done == calls = MaxCalls /\ \A c \in Clients : busy[c] = Idle
\* Behaviours that differ in the names of the clients only are the same.
Canonical == \A i \in DOMAIN hist : hist[i].c = 1 \/ \E j \in 1..(i - 1) : hist[j].c = hist[i].c - 1
Small == Sim \/ (Canonical /\ (hist = <<>> \/ hist[1].c = 1))
Emit == (Done /\ Small) => CSVWrite("%1$s", <<ToJson([k |-> "indep", clients |-> Cardinality(Clients), hist |-> hist])>>, IOEnv.OUT)
=============================================================================
