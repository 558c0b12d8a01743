---------------------------- MODULE AlgContract ----------------------------
(***************************************************************************)
(* What the operations of the math module have to return, for integer      *)
(* operands.  Exact results are compared as integers; results that are not *)
(* integers are recorded in fixed point.                                   *)
(***************************************************************************)
EXTENDS GeoAlg

Unless(ok, clause) == IF ok THEN {} ELSE {clause}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Near(x, y, tol) == Abs(x - y) <= tol
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)

----------------------------------------------------------------------------
(* A01 *)
Product(name, x, y) ==
  CASE name = "vv_mul" -> RotorPart(Gp(Vector(x), Vector(y)))
    [] name = "vv_dot" -> <<Scalar(Gp(Vector(x), Vector(y)))>>
    [] name = "vv_wedge" -> BivectorPart(Outer(Vector(x), Vector(y)))
    [] name = "vb_mul" -> LET p == Gp(Vector(x), Bivector(y)) IN VectorPart(p) \o TrivectorPart(p)
    [] name = "bb_mul" -> RotorPart(Gp(Bivector(x), Bivector(y)))
    [] name = "bb_dot" -> <<Scalar(Gp(Bivector(x), Bivector(y)))>>
    [] name = "bb_wedge" -> BivectorPart(Gp(Bivector(x), Bivector(y)))
    [] name = "bv_wedge" -> TrivectorPart(Outer(Bivector(x), Vector(y)))
    [] name = "tt_mul" -> <<Scalar(Gp(Trivector(x), Trivector(y)))>>
    [] name = "tt_dot" -> <<Scalar(Gp(Trivector(x), Trivector(y)))>>
    [] name = "tt_wedge" -> <<Scalar(Outer(Trivector(x), Trivector(y)))>>
    [] name = "rr_mul" -> RotorPart(Gp(Rotor(x), Rotor(y)))
    [] name = "rr_dot" -> <<Scalar(Gp(Rotor(x), Rotor(y)))>>
    [] name = "rv_mul" -> LET p == Gp(Rotor(x), Vector(y)) IN VectorPart(p) \o TrivectorPart(p)
Prod(name, x, y, r) == Unless(r = Product(name, x, y), "product " \o name)

----------------------------------------------------------------------------
(* A02 *)
Linear(f, x, y, plain, assigned) ==
  LET n == Len(x)
      want(i) == CASE f = "add" -> x[i] + y[i]
                   [] f = "sub" -> x[i] - y[i]
                   [] f = "neg" -> -x[i]
                   [] f = "mul" -> x[i] * y[1]
  IN Unless(Len(plain) = n /\ \A i \in 1..n :
              IF f = "div" THEN plain[i] * y[1] = x[i] ELSE plain[i] = want(i),
            "acts on each component")
     \cup Unless(assigned = plain, "the assigning form agrees")
(* Arbitrary floating-point operands: bits of the results and of the same  *)
(* operation on the components.                                            *)
LinearBits(plain, assigned, comps) ==
  Unless(plain = comps, "acts on each component") \cup Unless(assigned = plain, "the assigning form agrees")
Constant(name) ==
  CASE name = "vector zero" -> <<0, 0, 0>>
    [] name = "unit_x" -> <<1, 0, 0>> [] name = "unit_y" -> <<0, 1, 0>> [] name = "unit_z" -> <<0, 0, 1>>
    [] name = "bivector zero" -> <<0, 0, 0>>
    [] name = "unit_xy" -> <<1, 0, 0>> [] name = "unit_xz" -> <<0, 1, 0>> [] name = "unit_yz" -> <<0, 0, 1>>
    [] name = "trivector zero" -> <<0>>
    [] name = "unit_xyz" -> <<1>>
    [] name = "identity" -> <<1, 0, 0, 0>>
Const(name, r) == Unless(r = Constant(name), "the constant " \o name)
IsZero(x, r) == Unless(r = (\A i \in 1..Len(x) : x[i] = 0), "zero exactly if all components are")
Equal(x, y, r) == Unless(r = (x = y), "equal exactly if all components are")
Approx(r, comps) == Unless(r = (\A i \in 1..Len(comps) : comps[i]), "close exactly if every component is")

----------------------------------------------------------------------------
(* A03.  x: components; n2 exact; n in thousandths; unit in 1/10000; inv   *)
(* and the products with the inverse in millionths.                        *)
RevOf(kind, x) ==
  CASE kind = "v" -> x
    [] kind = "b" -> [i \in 1..3 |-> -x[i]]
    [] kind = "t" -> <<-x[1]>>
    [] kind = "r" -> <<x[1], -x[2], -x[3], -x[4]>>
Norm(kind, x, n2, n, unit, inv, left, right) ==
  LET N == Norm2(x)
      k == Len(x)
      M == 1000000
      one == IF kind = "t" THEN <<M>> ELSE <<M, 0, 0, 0>>
      rv == RevOf(kind, x)
  IN Unless(n2 = N, "the squared norm is the sum of squares")
     \cup Unless(n >= 0 /\ n <= 46000 /\ Near(n * n, M * N, 2 * n + 2), "the norm is its square root")
     \cup Unless(Len(unit) = k
                 /\ (\A i \in 1..k : Abs(unit[i]) <= 10001)
                 /\ Near(Norm2(unit), 100000000, 60000)
                 /\ (\A i, j \in 1..k : Near(unit[i] * x[j], unit[j] * x[i], 2 * (Abs(x[i]) + Abs(x[j]))))
                 /\ (\A i \in 1..k : unit[i] * x[i] >= 0),
                 "normalizing keeps the direction and makes the norm 1")
     \cup (IF kind = "r"
           THEN Unless(inv = [i \in 1..k |-> M * rv[i]], "the inverse of a rotor is its reverse")
                \cup Unless(left = <<M * N, 0, 0, 0>> /\ right = left, "a rotor times its reverse is its squared norm")
           ELSE Unless(Len(inv) = k /\ \A i \in 1..k : Abs(inv[i]) <= M + 1 /\ Near(inv[i] * N, M * rv[i], 2 * N),
                       "the inverse is the reverse over the squared norm")
                \cup Unless(NearAll(left, one, 4) /\ NearAll(right, one, 4), "a value times its inverse is 1"))

----------------------------------------------------------------------------
(* A04.  Rotors are q / |q| for integer q; results in thousandths.         *)
(* m times the recorded r is 1000 w                                        *)
IsOver(r, w, m) ==
  /\ Len(r) = 3
  /\ \A i \in 1..3 : /\ Abs(r[i]) <= (1000 * Abs(w[i])) \div m + 10
                     /\ Near(r[i] * m, 1000 * w[i], 2 * m + m * (Abs(r[i]) \div 50000))
Rot(q, v, r, undone, negated) ==
  LET w == Turned(q, v)
      N == Norm2(q)
  IN Unless(IsOver(r, w, N), "a rotor rotates")
     \cup Unless(IsOver(undone, v, 1), "the inverse undoes the rotation")
     \cup Unless(IsOver(negated, w, N), "negating a rotor does not change the rotation")
RECURSIVE TurnAll(_, _, _)
TurnAll(qs, k, v) == IF k > Len(qs) THEN v ELSE Turned(qs[k], TurnAll(qs, k + 1, v))
RECURSIVE NormAll(_, _)
NormAll(qs, k) == IF k > Len(qs) THEN 1 ELSE Norm2(qs[k]) * NormAll(qs, k + 1)
(* The product of the rotors qs[1] qs[2] ... : the last one turns first.   *)
Comp(qs, v, byProduct, byTurns) ==
  LET w == TurnAll(qs, 1, v)
      m == NormAll(qs, 1)
  IN Unless(IsOver(byTurns, w, m), "a rotor rotates")
     \cup Unless(IsOver(byProduct, w, m), "a product of rotors rotates like one after the other")
FromVectors(u, v, r, normal, unit) ==
  LET n == CrossV(u, v)
      big == Max2(Max2(Abs(n[1]), Abs(n[2])), Abs(n[3]))
      tol == 6
  IN IF ~(\A i \in 1..3 : Abs(r[i]) <= 25000) THEN {"turns the first direction into the second"}
     ELSE Unless(/\ V3(r, v) > 0
                 /\ \A i \in 1..3 : Near(CrossV(r, v)[i], 0, tol * (Abs(v[1]) + Abs(v[2]) + Abs(v[3])))
                 /\ Near(Norm2(r), 1000000 * Norm2(u), 2 * tol * 1000 * (Abs(u[1]) + Abs(u[2]) + Abs(u[3])) + 3 * tol * tol),
                 "turns the first direction into the second")
          \cup Unless(\A i \in 1..3 : Near(normal[i], 1000 * n[i], 4 + big \div 10), "leaves the normal of the plane fixed")
          \cup Unless(Near(unit, 1000000, 5), "has norm 1")
(* Axes i, j of the frame that q makes of the basis; angle with cosine     *)
(* x / h and sine y / h; results: the three axes of the frame, turned.     *)
Basis == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Plane(q, i, j, x, y, h, r) ==
  LET N == Norm2(q)
      a(d) == Turned(q, Basis[d])
      mix(k, p, l, s) == [d \in 1..3 |-> k * a(p)[d] + l * a(s)[d]]
      other == CHOOSE d \in 1..3 : d # i /\ d # j
  IN Unless(IsOver(r[i], mix(x, i, y, j), N * h), "turns the first axis toward the second")
     \cup Unless(IsOver(r[j], mix(-y, i, x, j), N * h), "turns the second axis away from the first")
     \cup Unless(IsOver(r[other], a(other), N), "leaves the normal of the plane fixed")

----------------------------------------------------------------------------
(* A05 *)
Project(u, v, r) ==
  Unless(IsOver(r, [i \in 1..3 |-> V3(u, v) * v[i]], Norm2(v)), "the projection")
Reflect(u, v, r, twice) ==
  LET p == V3(u, v)
      N == Norm2(v)
  IN Unless(IsOver(r, [i \in 1..3 |-> 2 * p * v[i] - N * u[i]], N), "keeps the part along, negates the rest")
     \cup Unless(IsOver(twice, u, 1), "reflecting twice")
(* c, s: cosine and sine of the angle in 1/10000; ang in 1/10000; ang2:    *)
(* the angle with the order and lengths changed.                           *)
Angle(u, v, c, s, ang, ang2) ==
  LET N == Norm2(u) * Norm2(v)
      K == IF N <= 2000 THEN 1000 ELSE 100
      S == ISqrt(K * K * N)                       \* K |u| |v|, rounded down
      C == ISqrt(K * K * Norm2(CrossV(u, v)))     \* K |u x v|, rounded down
  IN Unless(0 <= ang /\ ang <= 31416, "between 0 and pi")
     \cup Unless(Abs(c) <= 10000 /\ Near(c * S, 10000 * K * V3(u, v), 3 * S + 10000), "the cosine is right")
     \cup Unless(s >= -10 /\ s <= 10000 /\ Near(s * S, 10000 * C, 12 * S + 20000), "the angle is right")
     \cup Unless(Near(ang, ang2, 12), "does not depend on order or length")

----------------------------------------------------------------------------
(* A06 *)
RECURSIVE Binomial(_, _)
Binomial(n, k) ==
  IF k = 0 THEN 1 ELSE IF k > n THEN 0
  ELSE IF 2 * k > n THEN Binomial(n, n - k)
  ELSE (Binomial(n, k - 1) \div k) * (n - k + 1) + ((Binomial(n, k - 1) % k) * (n - k + 1)) \div k
============================================================================
