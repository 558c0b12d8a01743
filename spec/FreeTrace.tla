----------------------------- MODULE FreeTrace -----------------------------
(***************************************************************************)
(* Trace validation of PlanarGraph for nodes at any position: like         *)
(* GraphTrace, with the contract of FreeGraph.  A history ends where a     *)
(* request is too close to call.                                           *)
(***************************************************************************)
EXTENDS FreeGraph, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, live

St(k) == [N |-> Trace[k].N, E |-> Trace[k].E]
Call(k) == [op |-> Trace[k].op, a |-> Trace[k].a]
Res(k) == [k |-> Trace[k].k, i |-> Trace[k].i, n |-> Trace[k].n, e |-> Trace[k].e]
Qry(k) == IF Len(Trace[k].q) = 1 THEN Trace[k].q[1] ELSE GC!NoQ

(* Prints what line k breaks; FALSE if the history cannot be followed on.  *)
Step(k) ==
  LET m == TLCEval(Meaning(St(k - 1), Call(k)))
      f == FreeFailed(Prop, St(k - 1), Call(k), Res(k), m, St(k), Qry(k))
  IN /\ \A c \in f : PrintT(ToJson([fail |-> Prop, t |-> Trace[k].t, line |-> k, op |-> Trace[k].op, clause |-> c]))
     /\ live' = (FreeSound(St(k - 1), Call(k), Res(k), m, St(k))
                 \/ (PrintT(ToJson([stop |-> k])) /\ FALSE))

TraceInit ==
  /\ l \in {k \in 1..Len(Trace) : Trace[k].op = "init"}
  /\ live = TRUE
  /\ \A c \in FUnless(Trace[l].N = <<>> /\ Trace[l].E = <<>>, "new graph not empty") :
        PrintT(ToJson([fail |-> Prop, t |-> Trace[l].t, line |-> l, op |-> "init", clause |-> c]))

TraceNext ==
  /\ live
  /\ l < Len(Trace)
  /\ Trace[l + 1].op # "init"
  /\ l' = l + 1
  /\ Step(l + 1)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, live>>
============================================================================
