--------------------------- MODULE PolyContract ---------------------------
(***************************************************************************)
(* What the public functions of Polygon have to return, for integer        *)
(* vertices.  Each operator yields the set of broken clauses.              *)
(***************************************************************************)
EXTENDS Polygon, TLC

Unless(ok, clause) == IF ok THEN {} ELSE {clause}

RECURSIVE MaxAbs(_, _)
MaxAbs(s, k) == IF k = 0 THEN 0 ELSE Max2(MaxAbs(s, k - 1), Max2(Abs(s[k][1]), Abs(s[k][2])))
RECURSIVE Spread(_, _)
Spread(s, k) == IF k = 0 THEN 0
                ELSE Max2(Spread(s, k - 1), Max2(Abs(s[k][1] - s[1][1]), Abs(s[k][2] - s[1][2])))

(* Rounding of areas: none as long as all products fit 24 bits.            *)
AreaTol(V) ==
  LET n == Len(V)
      D == 2 * Spread(V, n)
  IN IF D < 1000 /\ n * D * D < 16000000 THEN 0
     ELSE 2 + n * (n + 6) * (1 + ((D \div 1000) * (D \div 1000)) \div 16)
(* Rounding of centers, in thousandths. *)
CenterTol(V) == 2 + (Len(V) * MaxAbs(V, Len(V))) \div 4000

AreaIs(V, A) == Abs(A - Abs(Area2(V))) <= AreaTol(V)
(* c: center relative to the first vertex of P, in thousandths. *)
CenterIs(P, c) ==
  \A d \in 1..2 :
    LET s == Sum([i \in 1..Len(P) |-> P[i][d] - P[1][d]])
    IN Abs(Len(P) * c[d] - 1000 * s) <= Len(P) * CenterTol(P)

(* P03 *)
New(V, k, P, A, c, isSimple) ==
  IF Len(V) < 3
  THEN Unless(k = "err", "fewer than three vertices are rejected")
  ELSE IF k # "ok" THEN {"three or more vertices make a polygon"}
  ELSE
    Unless(IF Area2(V) > 0 THEN SameCycle(V, P)
           ELSE IF Area2(V) < 0 THEN SameCycle(Reverse(V), P)
           ELSE SameCycle(V, P) \/ SameCycle(Reverse(V), P),
           "keeps the cyclic sequence, reversed exactly if clockwise")
    \cup Unless(Len(P) >= 3 /\ Area2(P) >= 0, "the signed area is not negative")
    \cup Unless(isSimple => AreaIs(V, A), "area is the enclosed area")
    \cup Unless(Len(P) >= 1 /\ CenterIs(P, c), "center is the average of the vertices")

(* P02 *)
Diag(V, k, P, D) ==
  IF k # "ok" THEN {"the diagonal test returns"}
  ELSE IF ~(SameCycle(V, P) \/ SameCycle(Reverse(V), P)) \/ Area2(P) <= 0
  THEN {"the polygon is the given one"}
  ELSE
    LET n == Len(P)
        Is(i, j) == D[i][j] = 1
        half == TLCEval([i \in 1..n |-> [j \in 1..i |-> Diagonal(P, i, j)]])
        right(i, j) == IF j <= i THEN half[i][j] ELSE half[j][i]     \* (DiagonalSymmetric)
    IN Unless(\A i, j \in 1..n : right(i, j) => Is(i, j), "a diagonal is reported as one")
       \cup Unless(\A i, j \in 1..n : Is(i, j) => right(i, j), "only a diagonal is reported as one")
       \cup Unless(\A i, j \in 1..n : Is(i, j) = Is(j, i), "the order of the vertices does not matter")

(* P01: T is a sequence of triangles; ts their total area as reported. *)
TriSeq(V, k, T, ts) ==
  IF k # "ok" THEN {"triangulation terminates normally"}
  ELSE
    LET ccw == IF Area2(V) > 0 THEN V ELSE Reverse(V)
        vs  == {V[i] : i \in 1..Len(V)}
        m   == Len(T)
        shape == Unless(m = Len(V) - 2, "n - 2 triangles")
                 \cup Unless(\A i \in 1..m : Len(T[i]) = 3, "every triangle has three corners")
    IN IF shape # {} THEN shape
       ELSE Unless(\A i \in 1..m : \A j \in 1..3 : T[i][j] \in vs, "corners are vertices of the polygon")
            \cup Unless(\A i \in 1..m : TriArea2(T[i]) > 0, "triangles are counterclockwise with positive area")
            \cup Unless(\A i, j \in 1..m : i < j => Apart(T[i], T[j]), "triangles do not overlap")
            \cup Unless(\A i \in 1..m : InsidePolygon(ccw, T[i]), "triangles lie inside the polygon")
            \cup Unless(Sum([i \in 1..m |-> TriArea2(T[i])]) = Area2(ccw), "triangles cover the polygon")
            \cup Unless(Abs(ts - Area2(ccw)) <= m * AreaTol(V), "the reported areas add up")

(* P01 for polygons whose vertices were rounded off the lattice: straight  *)
(* angles may have become convex, so triangles may be flat.                *)
TriRounded(V, k, T) ==
  IF k # "ok" THEN {"triangulation terminates normally"}
  ELSE
    LET ccw == IF Area2(V) > 0 THEN V ELSE Reverse(V)
        vs  == {V[i] : i \in 1..Len(V)}
        m   == Len(T)
        shape == Unless(m = Len(V) - 2, "n - 2 triangles")
                 \cup Unless(\A i \in 1..m : Len(T[i]) = 3, "every triangle has three corners")
        full == {i \in 1..m : TriArea2(T[i]) # 0}
    IN IF shape # {} THEN shape
       ELSE IF ~(\A i \in 1..m : \A j \in 1..3 : T[i][j] \in vs) THEN {"corners are vertices of the polygon"}
       ELSE Unless(\A i \in 1..m : TriArea2(T[i]) >= 0, "triangles are counterclockwise with positive area")
            \cup Unless(\A i, j \in full : i < j => Apart(T[i], T[j]), "triangles do not overlap")
            \cup Unless(\A i \in full : InsidePolygon(ccw, T[i]), "triangles lie inside the polygon")
            \cup Unless(Sum([i \in 1..m |-> TriArea2(T[i])]) = Area2(ccw), "triangles cover the polygon")

(* P04 *)
Moved(V, op, a, k, P, A, c) ==
  IF k # "ok" THEN {"transforms return normally"}
  ELSE
    Unless(/\ Len(P) = Len(V)
           /\ IF op = "move"
              THEN \A i \in 1..Len(V) : P[i] = <<V[i][1] + a[1], V[i][2] + a[2]>>
              ELSE \A i \in 1..Len(V) : a[2] * P[i][1] = a[1] * V[i][1] /\ a[2] * P[i][2] = a[1] * V[i][2],
           "every vertex is transformed, exactly")
    \cup (IF Len(P) = 0 THEN {}
          ELSE Unless(CenterIs(P, c), "the center changes accordingly")
               \cup Unless(Spread(P, Len(P)) >= 10000 \/ AreaIs(P, A), "the area changes accordingly"))

(* P: vertices relative to the center in units of 1/10000 of the radius.   *)
Regular(n, k, P, c) ==
  IF k # "ok" THEN {"a regular polygon is built"}
  ELSE IF Len(P) # n THEN {"a regular polygon has the requested number of vertices"}
  ELSE
    LET cr(i, j) == P[i][1] * P[j][2] - P[i][2] * P[j][1]
        near(x, y, tol) == Abs(x - y) <= tol
    IN Unless(\A i \in 1..n : near(P[i][1] * P[i][1] + P[i][2] * P[i][2], 100000000, 100000),
              "all vertices are at the radius")
       \cup Unless(near(P[1][1], 10000, 4) /\ near(P[1][2], 0, 4), "starts on the positive x side")
       \cup Unless(\A i \in 1..n : cr(i, Nx(P, i)) > 0, "counterclockwise order")
       \cup Unless(\A i \in 1..n :
                     LET j == Nx(P, i) IN
                     /\ near(P[i][1] * P[2][1] - P[i][2] * P[2][2], 10000 * P[j][1], 60000)
                     /\ near(P[i][1] * P[2][2] + P[i][2] * P[2][1], 10000 * P[j][2], 60000),
                   "equal angles between neighbors")
       \cup Unless(Cardinality({i \in 1..n : P[i][2] < 0 /\ P[Nx(P, i)][2] >= 0}) = 1, "goes around once")
       \cup Unless(near(c[1], 0, 20) /\ near(c[2], 0, 20), "the center is where it was asked for")
============================================================================
