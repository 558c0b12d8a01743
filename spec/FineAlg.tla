------------------------------ MODULE FineAlg ------------------------------
(***************************************************************************)
(* The contracts of AlgContract once more, for operands and results of any *)
(* size: components are integers (up to 2^24 or so, scaled by a power of   *)
(* two in the library), results are recorded in units of 2^-40, and every  *)
(* defining equation is evaluated exactly in Wide arithmetic.  What may    *)
(* remain is 2^-tb of the size of the operands: rounding, nothing more.    *)
(* So results near a special case (norm nearly 1, vectors nearly parallel, *)
(* tiny angles) are told from the special case itself.                     *)
(***************************************************************************)
EXTENDS GeoAlg, Wide

Req(ok, clause) == IF ok THEN {} ELSE {clause}
U == WPower(WInt(2), 40)
UU == U \otimes U
Tol(tb) == WPower(WInt(2), tb)
(* |a - b| <= 2^-tb scale *)
Close(a, b, scale, tb) == WLeq(WAbs(a \ominus b) \otimes Tol(tb), scale)
Vanishes(a, scale, tb) == WLeq(WAbs(a) \otimes Tol(tb), scale)
Ws(x) == TLCEval([i \in 1..Len(x) |-> WInt(x[i])])
Size(w) == WSum([i \in 1..Len(w) |-> WAbs(w[i])])
WTimes(k, w) == TLCEval([i \in 1..Len(w) |-> k \otimes w[i]])
WCross(a, b) == TLCEval(<< (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                   (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                   (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>)
(* |q|^2 times v turned by q / |q|: with q = s - k* (k* the plane normal   *)
(* to k), (s^2 - k.k) v + 2 (k.v) k + 2 s (k x v).                         *)
WTurned(q, v) ==
  LET s == q[1]
      k == <<WNeg(q[4]), q[3], WNeg(q[2])>>
      two == WInt(2)
      m == (s \otimes s) \ominus WDot(k, k)
      d == two \otimes WDot(k, v)
      t == two \otimes s
      c == WCross(k, v)
  IN TLCEval([i \in 1..3 |-> (m \otimes v[i]) \oplus (d \otimes k[i]) \oplus (t \otimes c[i])])
AllWide(s) == \A i \in 1..Len(s) : IsWide(s[i])
(* r is w / m, up to 2^-tb size *)
Over(r, w, m, size, tb) ==
  Len(r) = Len(w) /\ \A i \in 1..Len(w) : Close(r[i] \otimes m, w[i] \otimes U, m \otimes size \otimes U, tb)

----------------------------------------------------------------------------
FineRev(kind, x) ==
  CASE kind = "v" -> x
    [] kind = "r" -> <<x[1], -x[2], -x[3], -x[4]>>
    [] OTHER -> [i \in 1..Len(x) |-> -x[i]]
(* inv in units of 2^-60; for rotors inv, left, right as integers          *)
FineNorm(kind, c, tb, n2, n, unit, inv, left, right) ==
  LET x == Ws(c)
      N == WDot(x, x)
      k == Len(x)
      rv == Ws(FineRev(kind, c))
      P == WPower(WInt(2), 60)
      one(v) == [i \in 1..Len(v) |-> IF i = 1 THEN U ELSE WInt(0)]
  IN Req(Close(n2, N, N, tb), "the squared norm is the sum of squares")
     \cup Req(WSign(n) >= 0 /\ Close(n \otimes n, N \otimes UU, N \otimes UU, tb), "the norm is its square root")
     \cup Req(/\ Close(WDot(unit, unit), UU, UU, tb)
              /\ \A i, j \in 1..k : i < j =>
                   Close(unit[i] \otimes x[j], unit[j] \otimes x[i], U \otimes (WAbs(x[i]) \oplus WAbs(x[j])), tb)
              /\ \A i \in 1..k : WSign(unit[i]) * WSign(x[i]) >= 0,
              "normalizing keeps the direction and makes the norm 1")
     \cup (IF kind = "r"
           THEN Req(inv = rv, "the inverse of a rotor is its reverse")
                \cup Req(/\ Close(left[1], N, N, tb) /\ Close(right[1], N, N, tb)
                         /\ \A i \in 2..4 : Vanishes(left[i], N, tb) /\ Vanishes(right[i], N, tb),
                         "a rotor times its reverse is its squared norm")
           ELSE Req(\A i \in 1..k : Close(inv[i] \otimes N, rv[i] \otimes P, Size(x) \otimes P, tb),
                    "the inverse is the reverse over the squared norm")
                \cup Req(/\ \A i \in 1..Len(left) : Close(left[i], one(left)[i], U, tb)
                         /\ \A i \in 1..Len(right) : Close(right[i], one(right)[i], U, tb),
                         "a value times its inverse is 1"))

FineRot(c, d, tb, r, undone, negated) ==
  LET q == Ws(c)
      v == Ws(d)
      w == WTurned(q, v)
      N == WDot(q, q)
  IN Req(Over(r, w, N, Size(v), tb), "a rotor rotates")
     \cup Req(Over(undone, v, WInt(1), Size(v), tb), "the inverse undoes the rotation")
     \cup Req(Over(negated, w, N, Size(v), tb), "negating a rotor does not change the rotation")

RECURSIVE WTurnAll(_, _, _)
WTurnAll(qs, k, v) == IF k > Len(qs) THEN v ELSE WTurned(Ws(qs[k]), WTurnAll(qs, k + 1, v))
RECURSIVE WNormAll(_, _)
WNormAll(qs, k) == IF k > Len(qs) THEN WInt(1) ELSE WDot(Ws(qs[k]), Ws(qs[k])) \otimes WNormAll(qs, k + 1)
FineComp(qs, d, tb, byProduct, byTurns, n2) ==
  LET v == Ws(d)
      w == WTurnAll(qs, 1, v)
      m == WNormAll(qs, 1)
  IN Req(Over(byTurns, w, m, Size(v), tb), "a rotor rotates")
     \cup Req(Over(byProduct, w, m, Size(v), tb), "a product of rotors rotates like one after the other")
     \cup Req(Close(n2, U, U, tb), "a product of unit rotors has norm 1")

(* r: u turned; c: the components of the rotor                             *)
FineFromVectors(a, b, tb, r, c) ==
  LET u == Ws(a)
      v == Ws(b)
      n == WCross(u, v)
      plane == << n[3], WNeg(n[2]), n[1] >>      \* u ^ v on e12, e13, e23
      x == WCross(r, v)
      B == <<c[2], c[3], c[4]>>
      y == WCross(B, plane)
  IN Req(/\ WSign(WDot(r, v)) > 0
         /\ \A i \in 1..3 : Vanishes(x[i], U \otimes Size(u) \otimes Size(v), tb)
         /\ Close(WDot(r, r), WDot(u, u) \otimes UU, WDot(u, u) \otimes UU, tb),
         "turns the first direction into the second")
     \cup Req(\A i \in 1..3 : Vanishes(y[i], U \otimes Size(u) \otimes Size(v), tb), "turns in the plane of the two")
     \cup Req(Close(WDot(c, c), UU, UU, tb), "has norm 1")

(* Coordinate axes i, j; the angle has cosine x / h and sine y / h.        *)
FinePlane(i, j, x, y, h, tb, r) ==
  LET axis(d, k) == [e \in 1..3 |-> IF e = d THEN WInt(k) ELSE WInt(0)]
      mix(k, l) == [e \in 1..3 |-> axis(i, k)[e] \oplus axis(j, l)[e]]
      other == CHOOSE d \in 1..3 : d # i /\ d # j
  IN Req(Over(r[i], mix(x, y), WInt(h), WInt(1), tb), "turns the first axis toward the second")
     \cup Req(Over(r[j], mix(-y, x), WInt(h), WInt(1), tb), "turns the second axis away from the first")
     \cup Req(Over(r[other], axis(other, 1), WInt(1), WInt(1), tb), "leaves the normal of the plane fixed")

----------------------------------------------------------------------------
FineProject(a, b, tb, r) ==
  LET u == Ws(a)
      v == Ws(b)
  IN Req(Over(r, WTimes(WDot(u, v), v), WDot(v, v), Size(u), tb), "the projection")
FineReflect(a, b, tb, r, twice) ==
  LET u == Ws(a)
      v == Ws(b)
      N == WDot(v, v)
      p == WInt(2) \otimes WDot(u, v)
  IN Req(Over(r, [i \in 1..3 |-> (p \otimes v[i]) \ominus (N \otimes u[i])], N, Size(u), tb),
         "keeps the part along, negates the rest")
     \cup Req(Over(twice, u, WInt(1), Size(u), tb), "reflecting twice")
(* c, s: cosine and sine of the angle; c2: cosine of the angle with order  *)
(* and lengths changed                                                     *)
FineAngle(a, b, tb, c, s, c2) ==
  LET u == Ws(a)
      v == Ws(b)
      N == WDot(u, u) \otimes WDot(v, v)
      d == WDot(u, v)
  IN Req(/\ Close(c \otimes c \otimes N, d \otimes d \otimes UU, N \otimes UU, tb)
         /\ Vanishes(c, U, tb \div 2) \/ WSign(c) = WSign(d), "the cosine is right")
     \cup Req(WSign(s) >= 0 \/ Vanishes(s, U, tb), "between 0 and pi")
     \cup Req(Close(c, c2, U, tb), "does not depend on order or length")

----------------------------------------------------------------------------
(* Counts that fill a machine word: r k! = n (n - 1) ... (n - k + 1)       *)
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN WInt(1) ELSE WInt(n - k + 1) \otimes Falling(n, k - 1)
WideCount(n, k, r) ==
  LET m == IF 2 * k > n THEN n - k ELSE k
  IN Req(IF k > n THEN r = WInt(0) ELSE r \otimes Falling(m, m) = Falling(n, m), "the binomial coefficient")
WideTotal(n, r) == Req(r = WPower(WInt(2), n), "two to the dimension")
============================================================================
