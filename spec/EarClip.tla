------------------------------ MODULE EarClip ------------------------------
(***************************************************************************)
(* Ear clipping as in Polygon::triangulate: the ear status of every vertex *)
(* is computed once; clipping an ear updates the status of its two         *)
(* neighbors only.  TLC starts from every simple polygon on a small grid   *)
(* (vertices in the middle of a straight side allowed) and clips ears in   *)
(* every possible order.                                                   *)
(***************************************************************************)
EXTENDS Polygon, Json

CONSTANTS W, H, MaxLen
VARIABLES
  whole,   \* the polygon to be triangulated (counterclockwise)
  rest,    \* what has not been clipped off yet
  ear,     \* ear status of the vertices of rest
  out,     \* the triangles so far
  phase    \* "draw": whole is an open chain being drawn; "clip"

evars == <<whole, rest, ear, out, phase>>
Grid == (0..(W - 1)) \X (0..(H - 1))

(* Drawing: extend a simple open chain whose first vertex is the least.    *)
ChainOk(C, q) ==
  LET n == Len(C) IN
  /\ q \notin {C[k] : k \in 1..n}
  /\ LexLess(C[1], q)
  /\ \A k \in 1..(n - 1) : ~OnClosed(C[k], C[k + 1], q)
  /\ \A k \in 1..(n - 2) : ~Meet(C[k], C[k + 1], C[n], q)
  /\ n >= 2 => ~OnOpen(C[n], q, C[n - 1])

EInit == whole \in {<<p>> : p \in Grid} /\ rest = <<>> /\ ear = <<>> /\ out = {} /\ phase = "draw"
Extend ==
  /\ phase = "draw" /\ Len(whole) < MaxLen
  /\ \E q \in Grid : ChainOk(whole, q) /\ whole' = Append(whole, q)
  /\ UNCHANGED <<rest, ear, out, phase>>

EarAt(P, i) == Diagonal(P, Pv(P, i), Nx(P, i))
Start ==
  /\ phase = "draw" /\ Simple(whole) /\ Area2(whole) > 0
  /\ phase' = "clip"
  /\ rest' = whole /\ out' = {}
  /\ ear' = [i \in 1..Len(whole) |-> EarAt(whole, i)]
  /\ UNCHANGED whole

Without(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
Clip(i) ==
  /\ phase = "clip" /\ Len(rest) > 3 /\ ear[i]
  /\ LET P == Without(rest, i)
         e == Without(ear, i)
         v1 == IF i = 1 THEN Len(P) ELSE i - 1       \* the neighbors of the ear, renumbered
         v3 == IF i > Len(P) THEN 1 ELSE i
     IN /\ rest' = P
        /\ ear' = [e EXCEPT ![v1] = EarAt(P, v1), ![v3] = EarAt(P, v3)]
        /\ out' = out \cup {<<rest[Pv(rest, i)], rest[i], rest[Nx(rest, i)]>>}
        /\ UNCHANGED <<whole, phase>>

ENext == Extend \/ Start \/ \E i \in 1..Len(rest) : Clip(i)
ESpec == EInit /\ [][ENext]_evars

----------------------------------------------------------------------------
Clipping == phase = "clip"
(* Updating two flags is enough. *)
FlagsRight == (Clipping /\ Len(rest) > 3) => \A i \in 1..Len(rest) : ear[i] = EarAt(rest, i)
(* There is always an ear: the loop terminates. *)
NeverStuck == (Clipping /\ Len(rest) > 3) => \E i \in 1..Len(rest) : ear[i]
(* What remains is a simple counterclockwise polygon. *)
RestSimple == Clipping => Simple(rest) /\ Area2(rest) > 0
RECURSIVE TotalArea(_)
TotalArea(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN TriArea2(t) + TotalArea(S \ {t})
(* The triangles so far and the rest partition the polygon. *)
Partition ==
  Clipping =>
    /\ Cardinality(out) = Len(whole) - Len(rest)
    /\ TotalArea(out) + Area2(rest) = Area2(whole)
    /\ \A t \in out : TriArea2(t) > 0 /\ InsidePolygon(whole, t)
    /\ \A s, t \in out : s # t => Apart(s, t)
(* Every vertex of a diagonal sees the other one. *)
DiagonalSymmetric ==
  (Clipping /\ out = {}) => \A i, j \in 1..Len(whole) :
     /\ Diagonal(whole, i, j) = Diagonal(whole, j, i)
     /\ Diagonal(whole, i, j) = Diagonal(Reverse(whole), Len(whole) + 1 - i, Len(whole) + 1 - j)

(* For the generation of test polygons: only draw, and print every polygon. *)
Done ==
  /\ phase = "draw" /\ Simple(whole) /\ Area2(whole) > 0
  /\ phase' = "done"
  /\ PrintT(ToJson([V |-> whole]))
  /\ UNCHANGED <<whole, rest, ear, out>>
DrawSpec == EInit /\ [][Extend \/ Done]_evars
============================================================================
