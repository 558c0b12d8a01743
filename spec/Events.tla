------------------------------ MODULE Events ------------------------------
(***************************************************************************)
(* Walking along a recorded file whose lines can be judged independently   *)
(* of each other.  The file is walked in pieces, from many initial states, *)
(* so that TLC judges the pieces in parallel.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)
Piece == 40

VARIABLE l     \* the line judged last; -k: line k is about to be judged

Report(k, broken) ==
  \A c \in broken :
    PrintT(ToJson([fail |-> Prop, t |-> Trace[k].t, line |-> k, op |-> Trace[k].op, clause |-> c]))

EvInit == l \in {-(Piece * j + 1) : j \in 0..((Len(Trace) - 1) \div Piece)}
EvNext(Broken(_)) ==
  \E k \in {IF l < 0 THEN -l ELSE l + 1} :
    /\ k <= Len(Trace)
    /\ l < 0 \/ l % Piece # 0
    /\ l' = k
    /\ Report(k, Broken(Trace[k]))
===========================================================================
