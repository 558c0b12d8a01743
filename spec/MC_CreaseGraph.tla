-------------------------- MODULE MC_CreaseGraph --------------------------
(* Model values for TLC (configuration files cannot hold tuples).          *)
EXTENDS CreaseGraph
(* Four corners and the centre of a square: all drawings on them. *)
Quincunx == {<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>}
QuincunxC == Quincunx \cup {<<1, 1>>}
(* A 3 x 3 grid, spaced so that all first crossings are lattice points. *)
Grid3 == {0, 60, 120} \X {0, 60, 120}
===========================================================================
