----------------------------- MODULE PolyMoves -----------------------------
(***************************************************************************)
(* A polygon under translations and uniform scalings, in any order.  The   *)
(* coordinates are quarters of the unit, so that halving stays exact.      *)
(***************************************************************************)
EXTENDS Polygon, Json

CONSTANTS Shapes,    \* the polygons to start from
          Shifts,    \* translation vectors
          Factors,   \* scale factors <<numerator, denominator>>
          MaxOps
VARIABLES first, cur, hist,
          num, den   \* product of the factors so far
mvars == <<first, cur, hist, num, den>>

MInit == first \in Shapes /\ cur = first /\ hist = <<>> /\ num = 1 /\ den = 1
Shifted(P, v) == [i \in 1..Len(P) |-> <<P[i][1] + v[1], P[i][2] + v[2]>>]
Divisible(P, f) == \A i \in 1..Len(P) : (P[i][1] * f[1]) % f[2] = 0 /\ (P[i][2] * f[1]) % f[2] = 0
Resized(P, f) == [i \in 1..Len(P) |-> <<(P[i][1] * f[1]) \div f[2], (P[i][2] * f[1]) \div f[2]>>]

Shift(v) == cur' = Shifted(cur, v) /\ UNCHANGED <<num, den>>
            /\ hist' = Append(hist, [op |-> "move", a |-> v])
Resize(f) == Divisible(cur, f) /\ cur' = Resized(cur, f) /\ num' = num * f[1] /\ den' = den * f[2]
             /\ hist' = Append(hist, [op |-> "scale", a |-> f])
MNext ==
  /\ Len(hist) < MaxOps
  /\ UNCHANGED first
  /\ (\E v \in Shifts : Shift(v)) \/ (\E f \in Factors : Resize(f))
MSpec == MInit /\ [][MNext]_mvars

(* Areas scale by the square of the factors; orientation and shape stay.   *)
AreaScales == den * den * Area2(cur) = num * num * Area2(first)
StaysSimple == Simple(cur) /\ Area2(cur) > 0
(* The center is the average of the vertices: it goes where they go.       *)
SumOf(P, d) == Sum([i \in 1..Len(P) |-> P[i][d]])
CenterMoves ==
  \A v \in Shifts : \A d \in 1..2 : SumOf(Shifted(cur, v), d) = SumOf(cur, d) + Len(cur) * v[d]
CenterScales ==
  \A f \in Factors : Divisible(cur, f) =>
    \A d \in 1..2 : f[2] * SumOf(Resized(cur, f), d) = f[1] * SumOf(cur, d)
(* Transformations with the inverse undo each other. *)
Undo == \A v \in Shifts : Shifted(Shifted(cur, v), <<-v[1], -v[2]>>) = cur

PrintMoves == Len(hist') = MaxOps => PrintT(ToJson([V |-> first, H |-> hist']))
============================================================================
