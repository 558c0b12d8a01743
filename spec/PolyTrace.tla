----------------------------- MODULE PolyTrace -----------------------------
(***************************************************************************)
(* Trace validation of Polygon: every recorded line against PolyContract.  *)
(***************************************************************************)
EXTENDS PolyContract, PolyFine, Events

(* The recorder promises simple polygons, except for arbitrary lists.      *)
Given(e) == IF Simple(e.a) THEN TRUE ELSE Assert(FALSE, <<"not a simple polygon", e>>)
FGiven(e) == IF FSimple(e.a) THEN TRUE ELSE Assert(FALSE, <<"not a simple polygon", e>>)

Broken(e) ==
  CASE e.op = "new" ->
         LET s == e.kind # "arbitrary list" IN
         IF (s => Given(e)) THEN New(e.a, e.k, e.P, e.A, e.c, s) ELSE {}
    [] e.op = "diag" -> IF Given(e) THEN Diag(e.a, e.k, e.P, e.D) ELSE {}
    [] e.op = "tri" -> IF Given(e) THEN TriSeq(e.a, e.k, e.T, e.A) ELSE {}
    [] e.op = "round" -> IF Given(e) THEN TriRounded(e.a, e.k, e.T) ELSE {}
    [] e.op \in {"move", "scale"} -> Moved(e.V, e.op, e.a, e.k, e.P, e.A, e.c)
    [] e.op = "fine-new" -> IF FGiven(e) THEN FNew(e.a, e.k, e.P, e.A, e.c, e.sized) ELSE {}
    [] e.op = "fine-diag" -> IF FGiven(e) THEN FDiag(e.a, e.k, e.P, e.D) ELSE {}
    [] e.op = "fine-tri" -> IF FGiven(e) THEN FTri(e.a, e.k, e.T) ELSE {}
    [] e.op \in {"fine-move", "fine-scale"} -> FMoved(e.V, e.op, e.a, e.k, e.P, e.A, e.c, e.sized)
    [] e.op = "regular" -> Regular(e.sides, e.k, e.P, e.c)

TraceSpec == EvInit /\ [][EvNext(Broken)]_l
============================================================================
