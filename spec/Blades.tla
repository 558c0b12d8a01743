------------------------------- MODULE Blades -------------------------------
(***************************************************************************)
(* Basis blades of grade k in n dimensions are the sets of k of the n      *)
(* basis vectors.  Counting them is compared with the closed formulas.     *)
(***************************************************************************)
EXTENDS AlgContract, FineAlg, FiniteSets
CONSTANT MaxDim
VARIABLES n, k
BInit == n = 0 /\ k = 0
BNext == \/ n < MaxDim /\ n' = n + 1 /\ k' = 0
         \/ k < n + 2 /\ k' = k + 1 /\ n' = n
BSpec == BInit /\ [][BNext]_<<n, k>>

Blade(d, g) == {s \in SUBSET (1..d) : Cardinality(s) = g}
CountsSubsets == Cardinality(Blade(n, k)) = Binomial(n, k)
Symmetric == k <= n => Binomial(n, k) = Binomial(n, n - k)
Pascal == k > 0 => Binomial(n + 1, k) = Binomial(n, k) + Binomial(n, k - 1)
RECURSIVE SumTo(_, _)
SumTo(d, g) == IF g < 0 THEN 0 ELSE Binomial(d, g) + SumTo(d, g - 1)
(* The test that judges the library's counts, in wide arithmetic. *)
Judged == \A r \in {Binomial(n, k) - 1, Binomial(n, k), Binomial(n, k) + 1} :
            (WideCount(n, k, WInt(r)) = {}) <=> (r = Cardinality(Blade(n, k)))
SumsUp == SumTo(n, n) = 2 ^ n /\ WideTotal(n, WInt(2 ^ n)) = {}
=============================================================================
