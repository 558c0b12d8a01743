------------------------------ MODULE FineGeo ------------------------------
(***************************************************************************)
(* The geometric utilities on points of any position: coordinates are      *)
(* single precision numbers over a common unit (integers), products are    *)
(* judged with Wide's integers of any size.                                *)
(*                                                                         *)
(* (2^19 units added to a magnitude stand for one unit: results are        *)
(* recorded rounded.)                                                      *)
(*                                                                         *)
(* Decisions are judged exactly where the library can decide exactly       *)
(* (S01), and otherwise wherever the configuration is clear: the deciding  *)
(* quantity is at least 16 times what rounding can make of it.  Real       *)
(* results are recorded in the same unit (as Wide integers), and have to   *)
(* be within a few rounding errors of the magnitude of the points.         *)
(***************************************************************************)
EXTENDS Geom2D, Wide

FUnless(ok, clause) == IF ok THEN {} ELSE {clause}
a \odot b == WInt(a) \otimes WInt(b)
(* Cross, Dot and Dist2 of Geom2D, for points of any size.                 *)
WDet(ux, uy, vx, vy) == (ux \odot vy) \ominus (vx \odot uy)
WCross(a, b, c) == WDet(b[1] - a[1], b[2] - a[2], c[1] - a[1], c[2] - a[2])
WDots(a, b, c) == ((b[1] - a[1]) \odot (c[1] - a[1])) \oplus ((b[2] - a[2]) \odot (c[2] - a[2]))
WDist2(a, b) == WDots(a, b, b)
Side(a, b, c) == WSign(WCross(a, b, c))

WOnClosed(a, b, p) == InBox(a, b, p) /\ Side(a, b, p) = 0
WCrossProperly(a, b, c, d) ==
  Side(a, b, c) * Side(a, b, d) = -1 /\ Side(c, d, a) * Side(c, d, b) = -1
WMeet(a, b, c, d) ==
  \/ WCrossProperly(a, b, c, d)
  \/ WOnClosed(a, b, c) \/ WOnClosed(a, b, d) \/ WOnClosed(c, d, a) \/ WOnClosed(c, d, b)

(* The sum of the absolute values of the components: at least the length,  *)
(* at most 3/2 of it.                                                      *)
N1(a, b) == Abs(b[1] - a[1]) + Abs(b[2] - a[2])
Mag(v) == LET m(p) == Max2(Abs(p[1]), Abs(p[2]))
          IN CHOOSE x \in {m(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : m(v[i]) <= x
(* x <= y * 2^-k *)
Below(x, y, k) == WLeq(x \otimes WInt(2^k), y)
(* |x - y| <= 2^-k * t *)
WNear(x, y, t, k) == Below(WAbs(x \ominus y), t, k)
WSquare(x) == x \otimes x
(* x is, up to d, the square root of y *)
IsRoot(x, y, d) == LET lo == x \ominus d IN
  /\ WSign(x \oplus d) >= 0 /\ WLeq(y, WSquare(x \oplus d))
  /\ WSign(lo) <= 0 \/ WLeq(WSquare(lo), y)
Range(x) == IsWide(x) /\ Len(x) <= 5
InRange(s) == \A i \in 1..Len(s) : Range(s[i])

----------------------------------------------------------------------------
(* S01.  A: the returned double area in units of the product of two units   *)
(* (recorded if sized: in extreme units it is beyond single precision).    *)
FinePred3(p, q, r, res) ==
  LET A == WCross(p, q, r)
      s == WSign(A)
  IN FUnless(res.sized => IsWide(res.A) /\ WNear(res.A, A, WAbs(A), 22), "signed double area")
     \cup FUnless(res.left = (s > 0), "left test")
     \cup FUnless(res.leftOn = (s >= 0), "left-or-on test")
     \cup FUnless(res.col = (s = 0), "collinear test")
     \cup FUnless(res.btw = WOnClosed(p, q, r), "between test")
FinePred4(p, q, r, s, res) ==
  FUnless(res.prop = WCrossProperly(p, q, r, s), "proper intersection test")
  \cup FUnless(res.int = WMeet(p, q, r, s), "intersection test")

----------------------------------------------------------------------------
(* S02.  R: the answers for the eight orders, each <<found, x, y>> with x  *)
(* and y relative to the first point.                                      *)
WDen(p, q, r, s) == WDet(q[1] - p[1], q[2] - p[2], s[1] - r[1], s[2] - r[2])
WTNum(p, q, r, s) == WDet(s[1] - r[1], s[2] - r[2], p[1] - r[1], p[2] - r[2])
WSNum(p, q, r, s) == WDet(q[1] - p[1], q[2] - p[2], p[1] - r[1], p[2] - r[2])
FineMeetingPoint(v, x, y) ==
  LET p == v[1]  q == v[2]  r == v[3]  s == v[4]
      m == WDen(p, q, r, s)
      t == WTNum(p, q, r, s)
      far == WInt(N1(p, r) + Mag(v) + 2^19) \oplus (WAbs(x) \oplus WAbs(y))
      tol == (WInt(N1(p, q)) \otimes WInt(N1(r, s))) \otimes far
  IN /\ WNear(x \otimes m, t \otimes WInt(q[1] - p[1]), tol, 19)
     /\ WNear(y \otimes m, t \otimes WInt(q[2] - p[2]), tol, 19)
(* The lines are at an angle that rounding does not hide: a sine of 2^-16, *)
(* where 2^-22 may be lost.  The routine for segments depends on the       *)
(* magnitude of the points as well.                                        *)
LineAngled(v) ==
  WLeq(WInt(N1(v[1], v[2])) \otimes WInt(N1(v[3], v[4])),
       WAbs(WDen(v[1], v[2], v[3], v[4])) \otimes WInt(2^16))
SegAngled(v) ==
  WLeq(WInt(Mag(v)) \otimes WInt(N1(v[1], v[2]) + N1(v[3], v[4])),
       WAbs(WDen(v[1], v[2], v[3], v[4])) \otimes WInt(2^12))
(* u / m is clearly between 0 and 1 / clearly not, by 1/64.                *)
Part(u, m) == IF WSign(m) < 0 THEN WNeg(u) ELSE u
ClearlyIn(u, m) ==
  LET e == WAbs(m)  x == Part(u, m) \otimes WInt(64)
  IN WLeq(e, x) /\ WLeq(x, e \otimes WInt(63))
ClearlyOut(u, m) ==
  LET e == WAbs(m)  x == Part(u, m) \otimes WInt(64)
  IN WLeq(x, WNeg(e)) \/ WLeq(e \otimes WInt(65), x)

AnswersInRange(R) == \A i \in 1..Len(R) : R[i][1] = 1 => InRange(<<R[i][2], R[i][3]>>)
FineSegCut(v, R) ==
  IF ~SegAngled(v) THEN {}
  ELSE LET m == WDen(v[1], v[2], v[3], v[4])
           t == WTNum(v[1], v[2], v[3], v[4])
           s == WSNum(v[1], v[2], v[3], v[4])
           in == ClearlyIn(t, m) /\ ClearlyIn(s, m)
           out == ClearlyOut(t, m) \/ ClearlyOut(s, m)
       IN FUnless(out => \A i \in 1..Len(R) : R[i][1] = 0, "nothing is returned for segments apart")
          \cup FUnless(in => \A i \in 1..Len(R) : R[i][1] = 1, "a point is returned for segments that meet")
          \cup FUnless(AnswersInRange(R) /\ \A i \in 1..Len(R) : R[i][1] = 1 => FineMeetingPoint(v, R[i][2], R[i][3]),
                       "the point is the meeting point")
FineLineCut(v, R) ==
  IF ~LineAngled(v) THEN {}
  ELSE FUnless(\A i \in 1..Len(R) : R[i][1] = 1, "lines that are not parallel have a common point")
       \cup FUnless(AnswersInRange(R) /\ \A i \in 1..Len(R) : R[i][1] = 1 => FineMeetingPoint(v, R[i][2], R[i][3]),
                    "the point is the common point")

----------------------------------------------------------------------------
(* S03 *)
(* p is off the line, or beyond the ends, by 2^-13 of the magnitude (the   *)
(* error may be 2^-17).                                                    *)
ClearlyOff(a, b, p) ==
  LET m == WInt(Mag(<<a, b, p>>))
      n == WInt(N1(a, b))
  IN WLeq(m \otimes n, WAbs(WCross(a, b, p)) \otimes WInt(2^13))
     \/ WLeq(m \otimes n, WNeg(WDots(a, b, p)) \otimes WInt(2^13))
     \/ WLeq(m \otimes n, WNeg(WDots(b, a, p)) \otimes WInt(2^13))
ClearlyApart(a, b) == LET m == Mag(<<a, b>>) IN WLeq(WInt(m), WInt(N1(a, b)) \otimes WInt(2^12))
FineOn(a, b, p, incl, excl) ==
  FUnless(ClearlyOff(a, b, p) => ~incl, "on the segment, ends included")
  \cup FUnless(ClearlyOff(a, b, p) => ~excl, "on the segment, ends excluded")
(* i: index counted from 0. *)
FineClosest(t, ps, i, d) ==
  IF i < 0 \/ i >= Len(ps) THEN {"the index is one of the list"}
  ELSE LET D(k) == WDist2(t, ps[k])
           e == WInt(2) \oplus WInt(N1(t, ps[i + 1]) \div 2^20)
       IN FUnless(\A k \in 1..Len(ps) : WLeq(D(i + 1), D(k) \oplus WInt(2)) \/ WNear(D(i + 1), D(k), D(k), 20),
                  "no other point is closer")
          \cup FUnless(Range(d) /\ IsRoot(d, D(i + 1), e), "the distance is right")
FineClose(a, b, res) == FUnless(ClearlyApart(a, b) => ~res, "close exactly if coincident")
(* All points are clearly apart: all of them are kept.                     *)
FineUnique(ps, n) ==
  FUnless((\A i, j \in 1..Len(ps) : i < j => ClearlyApart(ps[i], ps[j])) => n = Len(ps),
          "one representative of each group, in order of appearance")

----------------------------------------------------------------------------
(* S04.  Results are relative to p. *)
FineMidpoint(p, q, x, m) ==
  FUnless(/\ InRange(x)
          /\ \A d \in 1..2 : WLeq(WAbs((x[d] \otimes WInt(2)) \ominus WInt(q[d] - p[d])), WInt(4 + m \div 2^21)),
          "the midpoint is halfway")
FineFoot(p, q, r, x) ==
  LET L == WDist2(p, q)
      k == WDots(p, q, r)
      tol == L \otimes WInt(Mag(<<p, q, r>>) + N1(p, r) + 2^19)
  IN FUnless(/\ InRange(x)
             /\ \A d \in 1..2 : WNear(x[d] \otimes L, k \otimes WInt(q[d] - p[d]), tol, 19),
             "the foot of the perpendicular")
FineBisector(p, q, off, x, e) ==
  LET m == Mag(<<p, q>>) + Abs(off)
      d == WInt(4 + m \div 2^19)
      u == <<WInt(q[1] - p[1]), WInt(q[2] - p[2])>>
  IN FineMidpoint(p, q, x, m)
     \cup (IF ~InRange(e) THEN {"the second point is at the requested distance"}
           ELSE FUnless(IsRoot(WInt(Abs(off)), WDot(e, e), d), "the second point is at the requested distance")
                \cup FUnless(WLeq(WAbs(WDot(e, u)), d \otimes WInt(N1(p, q))), "in a perpendicular direction"))
(* Triangles whose sides rounding does not make equal to the sum of the    *)
(* others, and fat ones (for which the area is computed accurately).       *)
Longest2(p, q, r) ==
  LET a == WDist2(q, r)  b == WDist2(p, r)  c == WDist2(p, q)
      m == IF WLeq(a, b) THEN b ELSE a
  IN IF WLeq(m, c) THEN c ELSE m
Height(p, q, r, k) == WSign(Longest2(p, q, r)) > 0 /\ WLeq(Longest2(p, q, r), WAbs(WCross(p, q, r)) \otimes WInt(k))
FineIncenter(p, q, r, k, x, rad, deg) ==
  IF ~Height(p, q, r, 256) THEN {}
  ELSE
    LET A == WCross(p, q, r)
        vs == IF WSign(A) > 0 THEN <<p, q, r>> ELSE <<p, r, q>>
        e == WInt(16 + Mag(<<p, q, r>>) \div 2^19) \oplus
             (IF Height(p, q, r, 8) THEN WInt(0) ELSE WInt(Mag(<<p, q, r>>) \div 2^11))
        far(i) == LET u == vs[i]  v == vs[IF i = 3 THEN 1 ELSE i + 1] IN    \* times the length of uv
                  (WInt(v[1] - u[1]) \otimes (x[2] \ominus WInt(u[2] - p[2])))
                  \ominus (WInt(v[2] - u[2]) \otimes (x[1] \ominus WInt(u[1] - p[1])))
        len2(i) == WDist2(vs[i], vs[IF i = 3 THEN 1 ELSE i + 1])
        lo == rad \ominus e
        hi == rad \oplus e
    IN FUnless(~deg, "degenerate triangles are recognized")
       \cup (IF k # "some" THEN {"nothing is returned exactly for degenerate triangles"}
             ELSE IF ~InRange(<<x[1], x[2], rad>>) THEN {"the incenter is inside"}
             ELSE FUnless(\A i \in 1..3 : WSign(far(i)) > 0, "the incenter is inside")
                  \cup FUnless(\A i \in 1..3 :
                          /\ WLeq(WSquare(far(i)), WSquare(hi) \otimes len2(i))
                          /\ WSign(lo) <= 0 \/ WLeq(WSquare(lo) \otimes len2(i), WSquare(far(i))),
                          "equal distance from all sides, the radius"))
FineParallel(v, res) == FUnless(LineAngled(v) => ~res, "parallel exactly if the directions are")

----------------------------------------------------------------------------
(* S05.  The square of the area spanned by u and x - p is at least         *)
(* (2^-16 |u| (|x| + |p|))^2; the error is 2^-22 of that.                  *)
N3(w) == Abs(w[1]) + Abs(w[2]) + Abs(w[3])
FineContains(p, u, x, res) ==
  LET w == <<x[1] - p[1], x[2] - p[2], x[3] - p[3]>>
      area == WSum(<<WAbs(WDet(w[1], w[2], u[1], u[2])), WAbs(WDet(w[2], w[3], u[2], u[3])),
                     WAbs(WDet(w[3], w[1], u[3], u[1]))>>)
      off == WLeq((WInt(N3(u)) \otimes WInt(N3(x) + N3(p))), area \otimes WInt(2^16))
  IN FUnless(off /\ WSign(area) > 0 => ~res, "a line contains no other point")
=============================================================================
