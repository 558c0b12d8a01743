------------------------------ MODULE PolyFine ------------------------------
(***************************************************************************)
(* Polygons whose vertices use all digits of single precision numbers      *)
(* (integers of up to 25 bits over a common unit): the definitions of      *)
(* Polygon and the judgments of PolyContract, with Wide's integers for     *)
(* products.  MC_PolyFine checks them against Polygon on a small grid.     *)
(*                                                                         *)
(* Everything but areas and centers is decided by the library without      *)
(* rounding, and judged exactly.                                           *)
(***************************************************************************)
EXTENDS Polygon, FineGeo

(* The sign of Cross.  Differences cut to fewer digits decide most cases:  *)
(* every factor is off by less than one, of at most 2^14 (coordinates stay *)
(* below 2^26).                                                            *)
Coarse == 4096
Rough(x) == x \div Coarse
Turn(a, b, c) ==
  LET ux == Rough(b[1] - a[1])  uy == Rough(b[2] - a[2])
      vx == Rough(c[1] - a[1])  vy == Rough(c[2] - a[2])
      m == ux * vy - uy * vx
  IN IF Abs(m) > Abs(ux) + Abs(uy) + Abs(vx) + Abs(vy) + 4 THEN Sgn(m) ELSE Side(a, b, c)

FArea2(P) == WSum([i \in 1..(Len(P) - 2) |-> WCross(P[1], P[i + 1], P[i + 2])])
FOnClosed(a, b, p) == InBox(a, b, p) /\ Turn(a, b, p) = 0
FOnOpen(a, b, p) == p # a /\ p # b /\ FOnClosed(a, b, p)
FCrossProperly(a, b, c, d) ==
  /\ BoxesMeet(a, b, c, d)
  /\ Turn(a, b, c) * Turn(a, b, d) = -1
  /\ Turn(c, d, a) * Turn(c, d, b) = -1
FMeet(a, b, c, d) ==
  \/ FCrossProperly(a, b, c, d)
  \/ FOnClosed(a, b, c) \/ FOnClosed(a, b, d) \/ FOnClosed(c, d, a) \/ FOnClosed(c, d, b)

FSideOk(P, i, j) ==
  IF j = Nx(P, i)
  THEN ~FOnOpen(P[i], P[j], P[Nx(P, j)]) /\ ~FOnOpen(P[j], P[Nx(P, j)], P[i])
       /\ (Len(P) = 3 \/ P[Nx(P, j)] # P[i])
  ELSE IF i = Nx(P, j) THEN TRUE
  ELSE ~FMeet(P[i], P[Nx(P, i)], P[j], P[Nx(P, j)])
FSimple(P) ==
  /\ Len(P) >= 3
  /\ \A i \in 1..Len(P) : P[i] # P[Nx(P, i)]
  /\ \A i, j \in 1..Len(P) : i < j => FSideOk(P, i, j) /\ FSideOk(P, j, i)
  /\ WSign(FArea2(P)) # 0

FOnBoundary(P, q) == \E i \in 1..Len(P) : FOnClosed(P[i], P[Nx(P, i)], q)
FRayHits(P, q) ==
  {i \in 1..Len(P) :
     LET a == P[i]
         b == P[Nx(P, i)]
     IN (a[2] > q[2]) # (b[2] > q[2])
        /\ Turn(a, b, q) = (IF b[2] > a[2] THEN 1 ELSE -1)}
FInside(P, q) == ~FOnBoundary(P, q) /\ Cardinality(FRayHits(P, q)) % 2 = 1
FDiagonal(P, i, j) ==
  /\ i # j /\ j # Nx(P, i) /\ i # Nx(P, j)
  /\ \A k \in 1..Len(P) :
       /\ ~FOnOpen(P[i], P[j], P[k])
       /\ ~FCrossProperly(P[i], P[j], P[k], P[Nx(P, k)])
       /\ ~FOnOpen(P[k], P[Nx(P, k)], P[i])
       /\ ~FOnOpen(P[k], P[Nx(P, k)], P[j])
  /\ FInside(Scaled(P, 2), <<P[i][1] + P[j][1], P[i][2] + P[j][2]>>)

FLeftOrOn(a, b, t) == \A k \in 1..3 : Turn(a, b, t[k]) <= 0
FApart(s, t) ==
  \/ FLeftOrOn(s[1], s[2], t) \/ FLeftOrOn(s[2], s[3], t) \/ FLeftOrOn(s[3], s[1], t)
  \/ FLeftOrOn(t[1], t[2], s) \/ FLeftOrOn(t[2], t[3], s) \/ FLeftOrOn(t[3], t[1], s)
FStrictlyInTri(t, q) == Turn(t[1], t[2], q) > 0 /\ Turn(t[2], t[3], q) > 0 /\ Turn(t[3], t[1], q) > 0
FInsidePolygon(P, t) ==
  /\ \A k \in 1..Len(P) :
       /\ ~FStrictlyInTri(t, P[k])
       /\ \A m \in 1..3 : ~FCrossProperly(P[k], P[Nx(P, k)], t[m], t[IF m = 3 THEN 1 ELSE m + 1])
  /\ FInside(Scaled(P, 3),
        <<t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2]>>)

----------------------------------------------------------------------------
(* The reported double area (in units of the product of two units): the    *)
(* rounding of the result, and of a few products.                          *)
Extent(V) == CHOOSE m \in {N1(V[1], V[i]) : i \in 1..Len(V)} : \A i \in 1..Len(V) : N1(V[1], V[i]) <= m
FAreaIs(V, A) ==
  LET a == WAbs(FArea2(V))
  IN IsWide(A) /\ Below(WAbs(A \ominus a) \ominus (WInt(1) \oplus WSquare(WInt(Extent(V) \div 2^20))), a, 20)
(* The center (relative to the first vertex): rounding of the sum of the   *)
(* coordinates.                                                            *)
FCenterIs(P, c) ==
  LET tol == 2 + Len(P) * (1 + Mag(P) \div 2^22) IN
  \A d \in 1..2 :
    LET s == WSum([i \in 1..Len(P) |-> WInt(P[i][d] - P[1][d])])
    IN IsWide(c[d]) /\ WLeq(WAbs((c[d] \otimes WInt(Len(P))) \ominus s), WInt(Len(P)) \otimes WInt(tol))
FCcw(V) == IF WSign(FArea2(V)) > 0 THEN V ELSE Reverse(V)

(* P03.  sized: whether the area was recorded (it is a single precision    *)
(* number itself, and gets too small or too large in extreme units).       *)
FNew(V, k, P, A, c, sized) ==
  IF k # "ok" THEN {"three or more vertices make a polygon"}
  ELSE
    FUnless(SameCycle(FCcw(V), P), "keeps the cyclic sequence, reversed exactly if clockwise")
    \cup FUnless(sized => FAreaIs(V, A), "area is the enclosed area")
    \cup FUnless(Len(P) >= 1 /\ FCenterIs(P, c), "center is the average of the vertices")
(* P02 *)
FDiag(V, k, P, D) ==
  IF k # "ok" THEN {"the diagonal test returns"}
  ELSE IF ~SameCycle(FCcw(V), P) THEN {"the polygon is the given one"}
  ELSE
    LET n == Len(P)
        Is(i, j) == D[i][j] = 1
        half == TLCEval([i \in 1..n |-> [j \in 1..i |-> FDiagonal(P, i, j)]])
        right(i, j) == IF j <= i THEN half[i][j] ELSE half[j][i]
    IN FUnless(\A i, j \in 1..n : right(i, j) => Is(i, j), "a diagonal is reported as one")
       \cup FUnless(\A i, j \in 1..n : Is(i, j) => right(i, j), "only a diagonal is reported as one")
       \cup FUnless(\A i, j \in 1..n : Is(i, j) = Is(j, i), "the order of the vertices does not matter")
(* P01 *)
FTri(V, k, T) ==
  IF k # "ok" THEN {"triangulation terminates normally"}
  ELSE
    LET ccw == FCcw(V)
        vs  == {V[i] : i \in 1..Len(V)}
        m   == Len(T)
        shape == FUnless(m = Len(V) - 2, "n - 2 triangles")
                 \cup FUnless(\A i \in 1..m : Len(T[i]) = 3, "every triangle has three corners")
    IN IF shape # {} THEN shape
       ELSE IF ~(\A i \in 1..m : \A j \in 1..3 : T[i][j] \in vs) THEN {"corners are vertices of the polygon"}
       ELSE FUnless(\A i \in 1..m : Turn(T[i][1], T[i][2], T[i][3]) > 0, "triangles are counterclockwise with positive area")
            \cup FUnless(\A i, j \in 1..m : i < j => FApart(T[i], T[j]), "triangles do not overlap")
            \cup FUnless(\A i \in 1..m : FInsidePolygon(ccw, T[i]), "triangles lie inside the polygon")
            \cup FUnless(WSum([i \in 1..m |-> FArea2(T[i])]) = FArea2(ccw), "triangles cover the polygon")
(* P04: translations and scalings whose results need no rounding.          *)
FMoved(V, op, a, k, P, A, c, sized) ==
  IF k # "ok" THEN {"transforms return normally"}
  ELSE
    FUnless(/\ Len(P) = Len(V)
            /\ IF op = "fine-move"
               THEN \A i \in 1..Len(V) : P[i] = <<V[i][1] + a[1], V[i][2] + a[2]>>
               ELSE \A i \in 1..Len(V) : \A d \in 1..2 : a[2] * P[i][d] = a[1] * V[i][d],
            "every vertex is transformed, exactly")
    \cup (IF Len(P) = 0 THEN {}
          ELSE FUnless(FCenterIs(P, c), "the center changes accordingly")
               \cup FUnless(sized => FAreaIs(P, A), "the area changes accordingly"))
=============================================================================
