---------------------------- MODULE MC_PolyFine ----------------------------
(***************************************************************************)
(* PolyFine's definitions against those of Polygon: all closed chains of   *)
(* N points of a small grid, stretched so that both the quick and the      *)
(* exact test of the sign of Cross are used.                               *)
(***************************************************************************)
EXTENDS PolyFine, PolyContract
CONSTANTS W, H, N, Stretch
VARIABLE P
Grid == (0..(W - 1)) \X (0..(H - 1))
FInit == P \in {<<<<0, 0>>, q>> : q \in Grid}
FNext == Len(P) = 2 /\ \E rest \in [1..(N - 2) -> Grid] : P' = P \o rest
FSpec == FInit /\ [][FNext]_P
(* The vertices, moved by a unit or two off the stretched grid.            *)
Shaken == [i \in 1..N |-> <<Stretch * P[i][1] + (i % 3) * P[i][2], Stretch * P[i][2] + ((i + 1) % 2)>>]
Sixteen == 16
Same(Q) ==
  /\ FSimple(Q) <=> Simple(Q)
  /\ FArea2(Q) = WInt(Area2(Q))
  /\ \A i, j, k \in 1..N : Turn(Q[i], Q[j], Q[k]) = Sgn(Cross(Q[i], Q[j], Q[k]))
  /\ Simple(Q) =>
       LET C == IF Area2(Q) > 0 THEN Q ELSE Reverse(Q)
           D == [i \in 1..N |-> [j \in 1..N |-> IF Diagonal(C, i, j) THEN 1 ELSE 0]]
           ts == {<<C[x[1]], C[x[2]], C[x[3]]>> : x \in {y \in (1..N) \X (1..N) \X (1..N) : y[1] < y[2] /\ y[2] < y[3]}} IN
       /\ FCcw(Q) = C
       /\ \A i, j \in 1..N : FDiagonal(C, i, j) <=> Diagonal(C, i, j)
       /\ FDiag(Q, "ok", C, D) = {}
       /\ \A t \in ts : TriArea2(t) > 0 => (FInsidePolygon(C, t) <=> InsidePolygon(C, t))
       /\ \A s, t \in ts : TriArea2(s) > 0 /\ TriArea2(t) > 0 => (FApart(s, t) <=> Apart(s, t))
       /\ FAreaIs(Q, WInt(Abs(Area2(Q)))) /\ ~FAreaIs(Q, WInt(Abs(Area2(Q)) + Abs(Area2(Q)) \div 1000 + 2))
       /\ FNew(Q, "ok", Reverse(C), WInt(0), <<WInt(0), WInt(0)>>, FALSE) # {}
Agree == Len(P) = N => Same(P) /\ Same(Shaken)
=============================================================================
