----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Trace validation of PlanarGraph: every recorded call of the real        *)
(* library (one JSON object per line, in the format of GraphContract, with *)
(* the complete state after the call) must satisfy the contract and be a   *)
(* transition that CreaseGraph allows.                                     *)
(*                                                                         *)
(* A behaviour of this specification walks along one recorded history; the *)
(* initial states are the first events of all histories, so that TLC       *)
(* judges the histories in parallel.  A failing clause is printed and the  *)
(* walk continues, except that a history ends where its state is no longer *)
(* one the contract can start from (malformed or not planar).              *)
(***************************************************************************)
EXTENDS GraphContract, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, live

St(k) == [N |-> Trace[k].N, E |-> Trace[k].E]
Call(k) == [op |-> Trace[k].op, a |-> Trace[k].a]
Res(k) == [k |-> Trace[k].k, i |-> Trace[k].i, n |-> Trace[k].n, e |-> Trace[k].e]
Qry(k) == IF Len(Trace[k].q) = 1 THEN Trace[k].q[1] ELSE NoQ
NoSt == [N |-> <<>>, E |-> <<>>]
Start == {"init", "state"}   \* a new graph, or the state before the last call of a replayed history

Judge(k) ==
  Trace[k].op # "state" =>
  LET pre == IF Trace[k].op = "init" THEN NoSt ELSE St(k - 1)
      f == Failed(Prop, pre, Call(k), Res(k), St(k), Qry(k))
  IN \A c \in f : PrintT(ToJson([fail |-> Prop, t |-> Trace[k].t, line |-> k, op |-> Trace[k].op, clause |-> c]))

(* Whether the next call of this history can be judged.                    *)
Continues(k) ==
  \/ /\ Sound(St(k))
     /\ Trace[k].op \in Start \/ G01(St(k - 1), Call(k), Res(k), St(k)) = {}
  \/ PrintT(ToJson([stop |-> k])) /\ FALSE

TraceInit ==
  /\ nodes = 0 /\ edges = 0
  /\ l \in {k \in 1..Len(Trace) : Trace[k].op \in Start}
  /\ Judge(l)
  /\ live = Continues(l)

TraceNext ==
  /\ live
  /\ l < Len(Trace)
  /\ Trace[l + 1].op \notin Start
  /\ l' = l + 1
  /\ Judge(l + 1)
  /\ live' = Continues(l + 1)
  /\ UNCHANGED <<nodes, edges>>

TraceSpec == TraceInit /\ [][TraceNext]_<<l, live, nodes, edges>>
=============================================================================
