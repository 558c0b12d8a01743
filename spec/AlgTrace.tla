----------------------------- MODULE AlgTrace -----------------------------
(***************************************************************************)
(* Trace validation of the math module.                                    *)
(***************************************************************************)
EXTENDS AlgContract, FineAlg, Events

One(e) ==
  CASE e.op = "prod" -> Prod(e.f, e.a[1], e.a[2], e.r)
    [] e.op = "lin" -> Linear(e.f, e.a[1], e.a[2], e.r, e.asg)
    [] e.op = "bits" -> LinearBits(e.r, e.asg, e.comps)
    [] e.op = "const" -> Const(e.a, e.r)
    [] e.op = "iszero" -> IsZero(e.a, e.r)
    [] e.op = "eq" -> Equal(e.a[1], e.a[2], e.r)
    [] e.op = "approx" -> Approx(e.r, e.comps)
    [] e.op = "norm" -> Norm(e.f, e.a, e.n2, e.n, e.unit, e.inv, e.left, e.right)
    [] e.op = "rot" -> Rot(e.a[1], e.a[2], e.r, e.undone, e.negated)
    [] e.op = "comp" -> Comp(e.a, e.v, e.r, e.turns)
    [] e.op = "fromvec" -> FromVectors(e.a[1], e.a[2], e.r, e.normal, e.unit)
    [] e.op = "plane" -> Plane(e.a, e.i, e.j, e.x, e.y, e.h, e.r)
    [] e.op = "project" -> Project(e.a[1], e.a[2], e.r)
    [] e.op = "reflect" -> Reflect(e.a[1], e.a[2], e.r, e.twice)
    [] e.op = "angle" -> Angle(e.a[1], e.a[2], e.c, e.s, e.ang, e.ang2)
    [] e.op = "fine norm" -> FineNorm(e.f, e.a, e.tb, e.n2, e.n, e.unit, e.inv, e.left, e.right)
    [] e.op = "fine rot" -> FineRot(e.a[1], e.a[2], e.tb, e.r, e.undone, e.negated)
    [] e.op = "fine comp" -> FineComp(e.a, e.v, e.tb, e.r, e.turns, e.n2)
    [] e.op = "fine fromvec" -> FineFromVectors(e.a[1], e.a[2], e.tb, e.r, e.c)
    [] e.op = "fine plane" -> FinePlane(e.i, e.j, e.x, e.y, e.h, e.tb, e.r)
    [] e.op = "fine project" -> FineProject(e.a[1], e.a[2], e.tb, e.r)
    [] e.op = "fine reflect" -> FineReflect(e.a[1], e.a[2], e.tb, e.r, e.twice)
    [] e.op = "fine angle" -> FineAngle(e.a[1], e.a[2], e.tb, e.c, e.s, e.c2)
    [] e.op = "blades" -> WideCount(e.a[1], e.a[2], e.r)
    [] e.op = "total" -> WideTotal(e.a[1], e.r)

Broken(e) == IF e.k # "ok" THEN {"the call returns normally"} ELSE One(e)
TraceSpec == EvInit /\ [][EvNext(Broken)]_l
============================================================================
