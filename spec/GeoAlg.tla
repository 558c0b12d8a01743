------------------------------ MODULE GeoAlg ------------------------------
(***************************************************************************)
(* The geometric algebra of Euclidean 3-space over the integers, from the  *)
(* multiplication of its basis blades.                                     *)
(*                                                                         *)
(* A basis blade is a set of axes; a multivector gives every basis blade   *)
(* its coefficient.  The product of two basis blades is their symmetric    *)
(* difference, with a sign for every transposition needed to sort the      *)
(* axes (equal axes cancel: e_i e_i = 1).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Axes == {1, 2, 3}
Blades == SUBSET Axes
SymDiff(S, T) == (S \ T) \cup (T \ S)
Swaps(S, T) == Cardinality({p \in S \X T : p[1] > p[2]})
SignTable == [S \in Blades |-> [T \in Blades |-> IF Swaps(S, T) % 2 = 0 THEN 1 ELSE -1]]

(* All blades in a fixed order, for sums. *)
Order == << {}, {1}, {2}, {3}, {1, 2}, {1, 3}, {2, 3}, {1, 2, 3} >>

Mv(f(_)) == [S \in Blades |-> f(S)]
ZeroMv == [S \in Blades |-> 0]
Plus(A, B) == [S \in Blades |-> A[S] + B[S]]
Minus(A, B) == [S \in Blades |-> A[S] - B[S]]
Times(k, A) == [S \in Blades |-> k * A[S]]
Grade(A, k) == [S \in Blades |-> IF Cardinality(S) = k THEN A[S] ELSE 0]

Term(A, B, S, i) ==
  LET T == Order[i]
      U == SymDiff(S, T)
  IN IF A[T] = 0 THEN 0 ELSE A[T] * B[U] * SignTable[T][U]
(* The geometric product. *)
Gp(A, B) ==
  [S \in Blades |->
    Term(A, B, S, 1) + Term(A, B, S, 2) + Term(A, B, S, 3) + Term(A, B, S, 4)
    + Term(A, B, S, 5) + Term(A, B, S, 6) + Term(A, B, S, 7) + Term(A, B, S, 8)]

(* The outer product: what is left of the geometric product when blades    *)
(* with a common axis are taken to annihilate each other (equivalently, of *)
(* grades r and s, the part of grade r + s).                               *)
OuterTerm(A, B, S, i) == IF Order[i] \subseteq S THEN Term(A, B, S, i) ELSE 0
Outer(A, B) ==
  [S \in Blades |->
    OuterTerm(A, B, S, 1) + OuterTerm(A, B, S, 2) + OuterTerm(A, B, S, 3) + OuterTerm(A, B, S, 4)
    + OuterTerm(A, B, S, 5) + OuterTerm(A, B, S, 6) + OuterTerm(A, B, S, 7) + OuterTerm(A, B, S, 8)]

(* Reversal of the order of all factors. *)
Rev(A) == [S \in Blades |-> IF Cardinality(S) \in {2, 3} THEN -A[S] ELSE A[S]]
Scalar(A) == A[{}]

Vector(c) == [S \in Blades |-> IF S = {1} THEN c[1] ELSE IF S = {2} THEN c[2] ELSE IF S = {3} THEN c[3] ELSE 0]
Bivector(c) == [S \in Blades |-> IF S = {1, 2} THEN c[1] ELSE IF S = {1, 3} THEN c[2]
                                 ELSE IF S = {2, 3} THEN c[3] ELSE 0]
Trivector(c) == [S \in Blades |-> IF S = Axes THEN c[1] ELSE 0]
Rotor(c) == [S \in Blades |-> IF S = {} THEN c[1] ELSE IF S = {1, 2} THEN c[2] ELSE IF S = {1, 3} THEN c[3]
                              ELSE IF S = {2, 3} THEN c[4] ELSE 0]
VectorPart(A) == <<A[{1}], A[{2}], A[{3}]>>
BivectorPart(A) == <<A[{1, 2}], A[{1, 3}], A[{2, 3}]>>
TrivectorPart(A) == <<A[Axes]>>
RotorPart(A) == <<A[{}], A[{1, 2}], A[{1, 3}], A[{2, 3}]>>

(* Of component lists. *)
V3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RECURSIVE Squares(_, _)
Squares(c, k) == IF k = 0 THEN 0 ELSE c[k] * c[k] + Squares(c, k - 1)
Norm2(c) == Squares(c, Len(c))

(* |q|^2 times the vector v turned by the rotor q / |q|. *)
Turned(q, v) == VectorPart(Gp(Gp(Rotor(q), Vector(v)), Rev(Rotor(q))))
RotorTimes(q, r) == RotorPart(Gp(Rotor(q), Rotor(r)))
CrossV(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
============================================================================
