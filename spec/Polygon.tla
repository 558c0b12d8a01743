------------------------------ MODULE Polygon ------------------------------
(***************************************************************************)
(* Simple polygons with integer vertices, exactly.  A polygon is the       *)
(* sequence of its vertices.                                               *)
(***************************************************************************)
EXTENDS Geom2D, TLC

RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))

Nx(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
Pv(P, i) == IF i = 1 THEN Len(P) ELSE i - 1
Reverse(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
Rotate(P, k) == [i \in 1..Len(P) |-> P[((i - 1 + k) % Len(P)) + 1]]

(* Twice the signed area (shoelace formula about the first vertex). *)
Area2(P) == Sum([i \in 1..(Len(P) - 2) |-> Cross(P[1], P[i + 1], P[i + 2])])

SameCycle(P, Q) == Len(P) = Len(Q) /\ \E k \in 0..(Len(P) - 1) : Rotate(P, k) = Q

(* No two sides have a point in common except the shared end of neighbors. *)
SideOk(P, i, j) ==
  IF j = Nx(P, i)
  THEN ~OnOpen(P[i], P[j], P[Nx(P, j)]) /\ ~OnOpen(P[j], P[Nx(P, j)], P[i])
       /\ (Len(P) = 3 \/ P[Nx(P, j)] # P[i])
  ELSE IF i = Nx(P, j) THEN TRUE
  ELSE ~Meet(P[i], P[Nx(P, i)], P[j], P[Nx(P, j)])
Simple(P) ==
  /\ Len(P) >= 3
  /\ \A i \in 1..Len(P) : P[i] # P[Nx(P, i)]
  /\ \A i, j \in 1..Len(P) : i # j => SideOk(P, i, j)
  /\ Area2(P) # 0

OnBoundary(P, q) == \E i \in 1..Len(P) : OnClosed(P[i], P[Nx(P, i)], q)
(* Crossing number: a ray to the right of q meets the boundary oddly often. *)
RayHits(P, q) ==
  {i \in 1..Len(P) :
     LET a == P[i]
         b == P[Nx(P, i)]
     IN (a[2] > q[2]) # (b[2] > q[2])
        /\ (IF b[2] > a[2] THEN Cross(a, b, q) > 0 ELSE Cross(a, b, q) < 0)}
StrictlyInside(P, q) == ~OnBoundary(P, q) /\ Cardinality(RayHits(P, q)) % 2 = 1

Scaled(P, k) == [i \in 1..Len(P) |-> <<k * P[i][1], k * P[i][2]>>]

(* The open segment from P[i] to P[j] lies in the interior of the polygon: *)
(* no side has a point in it, and its midpoint is inside.                  *)
Diagonal(P, i, j) ==
  /\ i # j /\ j # Nx(P, i) /\ i # Nx(P, j)
  /\ \A k \in 1..Len(P) :
       /\ ~OnOpen(P[i], P[j], P[k])
       /\ ~CrossProperly(P[i], P[j], P[k], P[Nx(P, k)])
       /\ ~OnOpen(P[k], P[Nx(P, k)], P[i])
       /\ ~OnOpen(P[k], P[Nx(P, k)], P[j])
  /\ StrictlyInside(Scaled(P, 2), <<P[i][1] + P[j][1], P[i][2] + P[j][2]>>)

----------------------------------------------------------------------------
(* Triangulations.                                                         *)
TriArea2(t) == Cross(t[1], t[2], t[3])
LeftOrOn(a, b, t) == \A k \in 1..3 : Cross(a, b, t[k]) <= 0
(* Interiors of two counterclockwise triangles are disjoint: some side of  *)
(* one has the other one on its outer side.                                *)
Apart(s, t) ==
  \/ LeftOrOn(s[1], s[2], t) \/ LeftOrOn(s[2], s[3], t) \/ LeftOrOn(s[3], s[1], t)
  \/ LeftOrOn(t[1], t[2], s) \/ LeftOrOn(t[2], t[3], s) \/ LeftOrOn(t[3], t[1], s)

StrictlyInTri(t, q) == Cross(t[1], t[2], q) > 0 /\ Cross(t[2], t[3], q) > 0 /\ Cross(t[3], t[1], q) > 0
InsidePolygon(P, t) ==
  /\ \A k \in 1..Len(P) :
       /\ ~StrictlyInTri(t, P[k])
       /\ \A m \in 1..3 : ~CrossProperly(P[k], P[Nx(P, k)], t[m], t[IF m = 3 THEN 1 ELSE m + 1])
  /\ StrictlyInside(Scaled(P, 3),
        <<t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2]>>)
============================================================================
