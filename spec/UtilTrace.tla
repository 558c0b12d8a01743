----------------------------- MODULE UtilTrace -----------------------------
(***************************************************************************)
(* Trace validation of the predicates of polygon.rs, of utils.rs and of    *)
(* Line::contains.                                                         *)
(***************************************************************************)
EXTENDS UtilContract, FineGeo, Events

One(e) ==
  CASE e.op = "pred3" -> Pred3(e.a[1], e.a[2], e.a[3], e.r)
    [] e.op = "pred4" -> Pred4(e.a[1], e.a[2], e.a[3], e.a[4], e.r)
    [] e.op = "seg" -> SegCut(e.a, e.R, e.mag)
    [] e.op = "line" -> LineCut(e.a, e.R, e.mag)
    [] e.op = "on" -> OnLattice(e.a[1], e.a[2], e.a[3], e.incl, e.excl)
    [] e.op = "frac" -> OnFraction(e.n, e.m, e.j, e.incl, e.excl)
    [] e.op = "closest" -> Closest(e.p, e.a, e.i, e.dist)
    [] e.op = "close" -> CloseTo(e.a[1], e.a[2], e.r)
    [] e.op = "unique" -> Unique(e.a, e.out)
    [] e.op = "mid" -> Midpoint(e.a[1], e.a[2], e.x)
    [] e.op = "foot" -> Foot(e.a[1], e.a[2], e.a[3], e.x, e.mag)
    [] e.op = "bisect" -> Bisector(e.a[1], e.a[2], e.off, e.x, e.e, e.mag)
    [] e.op = "incenter" -> Incenter(e.a[1], e.a[2], e.a[3], e.found, e.x, e.rad, e.deg, e.mag)
    [] e.op = "parallel" -> Parallel(e.a[1], e.a[2], e.a[3], e.a[4], e.r)
    [] e.op = "contains" -> Contains(e.a[1], e.a[2], e.a[3], e.r)
    [] e.op = "cfrac" -> ContainsFraction(e.off, e.r)
    [] e.op = "fpred3" -> FinePred3(e.a[1], e.a[2], e.a[3], e.r)
    [] e.op = "fpred4" -> FinePred4(e.a[1], e.a[2], e.a[3], e.a[4], e.r)
    [] e.op = "fseg" -> FineSegCut(e.a, e.R)
    [] e.op = "fline" -> FineLineCut(e.a, e.R)
    [] e.op = "fon" -> FineOn(e.a[1], e.a[2], e.a[3], e.incl, e.excl)
    [] e.op = "fclosest" -> FineClosest(e.p, e.a, e.i, e.dist)
    [] e.op = "fclose" -> FineClose(e.a[1], e.a[2], e.r)
    [] e.op = "funique" -> FineUnique(e.a, e.n)
    [] e.op = "fmid" -> FineMidpoint(e.a[1], e.a[2], e.x, Mag(e.a))
    [] e.op = "ffoot" -> FineFoot(e.a[1], e.a[2], e.a[3], e.x)
    [] e.op = "fbisect" -> FineBisector(e.a[1], e.a[2], e.off, e.x, e.e)
    [] e.op = "fincenter" -> FineIncenter(e.a[1], e.a[2], e.a[3], e.found, e.x, e.rad, e.deg)
    [] e.op = "fparallel" -> FineParallel(e.a, e.r)
    [] e.op = "fcontains" -> FineContains(e.a[1], e.a[2], e.a[3], e.r)

Broken(e) == IF e.k # "ok" THEN {"the call returns normally"} ELSE One(e)
TraceSpec == EvInit /\ [][EvNext(Broken)]_l
============================================================================
