------------------------------ MODULE Spaces ------------------------------
(***************************************************************************)
(* Lines in space: the test of Line::contains (the bivector between the    *)
(* direction and the vector to the point is zero) against the definition   *)
(* (the vector to the point is a multiple of the direction).               *)
(***************************************************************************)
EXTENDS Integers
CONSTANT R
Abs(x) == IF x < 0 THEN -x ELSE x
Coord == (-R)..R
Vec == Coord \X Coord \X Coord
Zero == <<0, 0, 0>>

VARIABLES u, w, on
Init == u \in (Vec \ {Zero}) /\ w = Zero /\ on = FALSE
Next == ~on /\ on' = TRUE /\ w' \in Vec /\ UNCHANGED u
Spec == Init /\ [][Next]_<<u, w, on>>

WedgeZero(p, q) == p[1] * q[2] = p[2] * q[1] /\ p[1] * q[3] = p[3] * q[1] /\ p[2] * q[3] = p[3] * q[2]
(* The definition: w = (n / m) u for some fraction. *)
ContainsRight ==
  on => /\ WedgeZero(w, u) = (\E m \in 1..R : \E n \in (-R * R)..(R * R) : \A d \in 1..3 : m * w[d] = n * u[d])
        (* any multiple of the direction describes the same line *)
        /\ \A k \in {-2, 3} : WedgeZero(w, <<k * u[1], k * u[2], k * u[3]>>) = WedgeZero(w, u)
        (* and any point of the line *)
        /\ \A k \in {-1, 2} : WedgeZero(<<w[1] - k * u[1], w[2] - k * u[2], w[3] - k * u[3]>>, u) = WedgeZero(w, u)
===========================================================================
