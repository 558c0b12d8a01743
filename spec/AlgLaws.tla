------------------------------ MODULE AlgLaws ------------------------------
(***************************************************************************)
(* The laws of GeoAlg, and the formulas of the library (in exact           *)
(* arithmetic) against GeoAlg, for all small operands.  Products are       *)
(* bilinear, so agreement on a basis and on sums of basis elements decides *)
(* all operands.                                                           *)
(***************************************************************************)
EXTENDS FineAlg

CONSTANTS C,       \* coefficients of the operands
          D        \* coefficients of the third operand
VARIABLES x, y, z, stage
lvars == <<x, y, z, stage>>
Zero4 == <<0, 0, 0, 0>>

(* Four coefficients each: used as vectors, bivectors, rotors, trivectors. *)
LInit == x \in [1..4 -> C] /\ y = Zero4 /\ z = Zero4 /\ stage = 0
LNext ==
  \/ stage = 0 /\ stage' = 1 /\ y' \in [1..4 -> C] /\ UNCHANGED <<x, z>>
  \/ stage = 1 /\ stage' = 2 /\ z' \in [1..4 -> D] /\ UNCHANGED <<x, y>>
LSpec == LInit /\ [][LNext]_lvars

tail(c) == <<c[2], c[3], c[4]>>
(* x as a general multivector *)
Full(c) == Plus(Plus(Rotor(c), Vector(<<c[4], c[1], c[2]>>)), Trivector(<<c[3]>>))

Associative == stage = 2 => Gp(Gp(Full(x), Full(y)), Full(z)) = Gp(Full(x), Gp(Full(y), Full(z)))
Distributive == stage = 2 => Gp(Full(x), Plus(Full(y), Full(z))) = Plus(Gp(Full(x), Full(y)), Gp(Full(x), Full(z)))
OuterAssociative ==
  stage = 2 => Outer(Outer(Vector(tail(x)), Vector(tail(y))), Vector(tail(z)))
             = Outer(Vector(tail(x)), Outer(Vector(tail(y)), Vector(tail(z))))
Reversal == stage = 1 => Rev(Gp(Full(x), Full(y))) = Gp(Rev(Full(y)), Rev(Full(x)))
VectorsSplit ==
  stage = 1 =>
    LET u == Vector(tail(x))
        v == Vector(tail(y))
    IN /\ Gp(u, v) = Plus(Grade(Gp(u, v), 0), Outer(u, v))
       /\ Scalar(Gp(u, v)) = V3(tail(x), tail(y))
       /\ Outer(u, v) = Times(-1, Outer(v, u))
       /\ Outer(u, u) = ZeroMv
Norms ==
  stage = 0 =>
    /\ Gp(Vector(tail(x)), Vector(tail(x))) = [ZeroMv EXCEPT ![{}] = Norm2(tail(x))]
    /\ Gp(Rotor(x), Rev(Rotor(x))) = [ZeroMv EXCEPT ![{}] = Norm2(x)]
    /\ Gp(Bivector(tail(x)), Rev(Bivector(tail(x)))) = [ZeroMv EXCEPT ![{}] = Norm2(tail(x))]
    /\ Gp(Trivector(<<x[1]>>), Rev(Trivector(<<x[1]>>))) = [ZeroMv EXCEPT ![{}] = x[1] * x[1]]

(* Rotors rotate: lengths, angles and orientation stay; they compose; the  *)
(* reverse undoes them; the sign does not matter.                          *)
Rotations ==
  stage = 2 =>
    LET q == x
        n == Norm2(x)
        u == Turned(q, tail(y))
        v == Turned(q, tail(z))
    IN /\ V3(u, v) = n * n * V3(tail(y), tail(z))
       /\ Outer(Vector(u), Vector(v)) = Times(n, Gp(Gp(Rotor(q), Outer(Vector(tail(y)), Vector(tail(z)))), Rev(Rotor(q))))
       /\ CrossV(u, v) = [i \in 1..3 |-> n * Turned(q, CrossV(tail(y), tail(z)))[i]]
       /\ Turned(RotorPart(Rev(Rotor(q))), u) = [i \in 1..3 |-> n * n * tail(y)[i]]
       /\ Turned([i \in 1..4 |-> -q[i]], tail(y)) = u
       (* compositions: x after y, on z *)
       /\ Turned(RotorTimes(x, y), tail(z)) = Turned(x, Turned(y, tail(z)))
       /\ Norm2(RotorTimes(x, y)) = n * Norm2(y)
       (* no vector grows a trivector part *)
       /\ TrivectorPart(Gp(Gp(Rotor(q), Vector(tail(y))), Rev(Rotor(q)))) = <<0>>

----------------------------------------------------------------------------
(* The formulas of the library. *)
CodeWedgeVV(u, v) == <<u[1] * v[2] - u[2] * v[1], u[1] * v[3] - u[3] * v[1], u[2] * v[3] - u[3] * v[2]>>
CodeMulVB(a, b) == <<-a[2] * b[1] - a[3] * b[2], a[1] * b[1] - a[3] * b[3], a[1] * b[2] + a[2] * b[3],
                     a[1] * b[3] - a[2] * b[2] + a[3] * b[1]>>
CodeWedgeBB(p, q) == <<p[3] * q[2] - p[2] * q[3], p[1] * q[3] - p[3] * q[1], p[2] * q[1] - p[1] * q[2]>>
CodeDotBB(p, q) == -(p[1] * q[1] + p[2] * q[2] + p[3] * q[3])
CodeWedgeBV(b, a) == b[3] * a[1] - b[2] * a[2] + b[1] * a[3]
CodeMulRR(p, q) ==
  <<p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4],
    p[1] * q[2] + q[1] * p[2] - p[3] * q[4] + p[4] * q[3],
    p[1] * q[3] + q[1] * p[3] + p[2] * q[4] - p[4] * q[2],
    p[1] * q[4] + q[1] * p[4] - p[2] * q[3] + p[3] * q[2]>>
CodeMulRV(r, a) ==
  <<r[1] * a[1] + r[2] * a[2] + r[3] * a[3], r[1] * a[2] - r[2] * a[1] + r[4] * a[3],
    r[1] * a[3] - r[3] * a[1] - r[4] * a[2], r[2] * a[3] - r[3] * a[2] + r[4] * a[1]>>
CodeRotate(r, u) ==
  LET a == r[1]  b1 == r[2]  b2 == r[3]  b3 == r[4]
      q1 == a * u[1] + b1 * u[2] + b2 * u[3]
      q2 == a * u[2] - b1 * u[1] + b3 * u[3]
      q3 == a * u[3] - b2 * u[1] - b3 * u[2]
      w == -b1 * u[3] + b2 * u[2] - b3 * u[1]
  IN <<a * q1 + q2 * b1 + q3 * b2 - w * b3, a * q2 - q1 * b1 + w * b2 + q3 * b3, a * q3 - w * b1 - q1 * b2 - q2 * b3>>

Formulas ==
  stage = 1 =>
    LET u == tail(x)
        v == tail(y)
        vb == Gp(Vector(u), Bivector(v))
        bb == Gp(Bivector(u), Bivector(v))
        rv == Gp(Rotor(x), Vector(v))
    IN /\ CodeWedgeVV(u, v) = BivectorPart(Outer(Vector(u), Vector(v)))
       /\ CodeMulVB(u, v) = VectorPart(vb) \o TrivectorPart(vb)
       /\ <<CodeDotBB(u, v)>> \o CodeWedgeBB(u, v) = RotorPart(bb)
       /\ <<CodeWedgeBV(u, v)>> = TrivectorPart(Outer(Bivector(u), Vector(v)))
       /\ CodeMulRR(x, y) = RotorPart(Gp(Rotor(x), Rotor(y)))
       /\ CodeMulRV(x, v) = VectorPart(rv) \o TrivectorPart(rv)
       /\ CodeRotate(x, v) = Turned(x, v)
(* The same rotation in wide arithmetic. *)
WideTurn == stage = 1 => WTurned(Ws(x), Ws(tail(y))) = Ws(Turned(x, tail(y)))
(* The rotor from u to v (both of squared norm n): n + v u, unnormalized.  *)
FromVectors ==
  (stage = 1 /\ Norm2(tail(x)) = Norm2(tail(y)) /\ Norm2(tail(x)) > 0) =>
    LET u == tail(x)
        v == tail(y)
        n == Norm2(u)
        r == Plus(Gp(Vector(v), Vector(u)), [ZeroMv EXCEPT ![{}] = n])
        q == RotorPart(r)
    IN /\ Turned(q, u) = [i \in 1..3 |-> Norm2(q) * v[i]]
       /\ Turned(q, CrossV(u, v)) = [i \in 1..3 |-> Norm2(q) * CrossV(u, v)[i]]
(* Projection and reflection by products. *)
Reflections ==
  (stage = 1 /\ Norm2(tail(y)) > 0) =>
    LET u == Vector(tail(x))
        v == Vector(tail(y))
        n == Norm2(tail(y))
        r == Gp(Gp(v, u), v)                 \* n times the reflection
        p == V3(tail(x), tail(y))
    IN /\ r = [ZeroMv EXCEPT ![{1}] = 2 * p * y[2] - n * x[2], ![{2}] = 2 * p * y[3] - n * x[3],
                             ![{3}] = 2 * p * y[4] - n * x[4]]
       /\ Gp(Gp(v, r), v) = Times(n * n, u)
=============================================================================
