--------------------------- MODULE UtilContract ---------------------------
(***************************************************************************)
(* What the geometric utilities have to return, for integer points.  Real  *)
(* results are recorded in fixed point (thousandths of the unit, relative  *)
(* to a given point), so comparisons of these carry a tolerance; decisions *)
(* (booleans, whether there is a result) are exact.                        *)
(***************************************************************************)
EXTENDS Geom2D, TLC

Unless(ok, clause) == IF ok THEN {} ELSE {clause}
Near(x, y, tol) == Abs(x - y) <= tol
F == 1000
(* Rounding of a recorded coordinate: m is the magnitude of the inputs.    *)
Tol(m) == 2 + m \div 1000

----------------------------------------------------------------------------
(* S01 *)
Pred3(p, q, r, res) ==
  LET A == Cross(p, q, r) IN
  Unless(res.A = A, "signed double area")
  \cup Unless(res.left = (A > 0), "left test")
  \cup Unless(res.leftOn = (A >= 0), "left-or-on test")
  \cup Unless(res.col = (A = 0), "collinear test")
  \cup Unless(res.btw = OnClosed(p, q, r), "between test")
Pred4(p, q, r, s, res) ==
  Unless(res.prop = CrossProperly(p, q, r, s), "proper intersection test")
  \cup Unless(res.int = Meet(p, q, r, s), "intersection test")

----------------------------------------------------------------------------
(* S02.  v: four points; R: the answers for the eight orders of the lines  *)
(* and their ends, each <<found, x, y>> relative to v[1].                  *)
Den(p, q, r, s) == (q[1] - p[1]) * (s[2] - r[2]) - (s[1] - r[1]) * (q[2] - p[2])
TNum(p, q, r, s) == (s[1] - r[1]) * (p[2] - r[2]) - (s[2] - r[2]) * (p[1] - r[1])
(* The recorded coordinate x is F * u / m. *)
IsFraction(x, u, m, tol) ==
  /\ Abs(x) <= (F * Abs(u)) \div Abs(m) + tol + 1
  /\ Abs(x * m - F * u) <= (tol + Abs(x) \div 100000) * Abs(m)
MeetingPoint(v, x, y, mag) ==
  LET m == Den(v[1], v[2], v[3], v[4])
      t == TNum(v[1], v[2], v[3], v[4])
  IN IsFraction(x, t * (v[2][1] - v[1][1]), m, Tol(mag)) /\ IsFraction(y, t * (v[2][2] - v[1][2]), m, Tol(mag))

SegCut(v, R, mag) ==
  LET m == Den(v[1], v[2], v[3], v[4])
      meet == Meet(v[1], v[2], v[3], v[4])
  IN IF m # 0
     THEN Unless(\A i \in 1..Len(R) : (R[i][1] = 1) => meet, "nothing is returned for segments apart")
          \cup Unless(\A i \in 1..Len(R) : meet => (R[i][1] = 1), "a point is returned for segments that meet")
          \cup Unless(\A i \in 1..Len(R) : (R[i][1] = 1 /\ meet) => MeetingPoint(v, R[i][2], R[i][3], mag),
                      "the point is the meeting point")
     ELSE IF ~meet THEN Unless(\A i \in 1..Len(R) : R[i][1] = 0, "nothing is returned for parallel segments apart")
     ELSE {}
LineCut(v, R, mag) ==
  LET m == Den(v[1], v[2], v[3], v[4])
  IN IF m # 0
     THEN Unless(\A i \in 1..Len(R) : R[i][1] = 1, "lines that are not parallel have a common point")
          \cup Unless(\A i \in 1..Len(R) : R[i][1] = 1 => MeetingPoint(v, R[i][2], R[i][3], mag),
                      "the point is the common point")
     ELSE Unless(\A i \in 1..Len(R) : R[i][1] = 0, "nothing is returned for parallel lines")

----------------------------------------------------------------------------
(* S03 *)
OnLattice(p, q, r, incl, excl) ==
  Unless(incl = OnClosed(p, q, r), "on the segment, ends included")
  \cup Unless(excl = OnOpen(p, q, r), "on the segment, ends excluded")
(* The point k / m of the way along the segment, moved to the side by      *)
(* j / m of its length.                                                    *)
OnFraction(k, m, j, incl, excl) ==
  Unless(incl = (j = 0 /\ 0 <= k /\ k <= m), "on the segment, ends included")
  \cup Unless(excl = (j = 0 /\ 0 < k /\ k < m), "on the segment, ends excluded")
(* i: index counted from 0; dist in hundredths. *)
Closest(t, ps, i, dist) ==
  IF i < 0 \/ i >= Len(ps) THEN {"the index is one of the list"}
  ELSE LET D == Dist2(t, ps[i + 1]) IN
       Unless(\A k \in 1..Len(ps) : D <= Dist2(t, ps[k]), "no other point is closer")
       \cup Unless(dist <= 100 * 300 /\ Near(dist * dist, 10000 * D, 2 * dist + 2), "the distance is right")
CloseTo(p, q, res) == Unless(res = (p = q), "close exactly if coincident")
RECURSIVE FirstOnes(_, _)
FirstOnes(ps, k) ==
  IF k = 0 THEN <<>>
  ELSE LET s == FirstOnes(ps, k - 1) IN
       IF \E j \in 1..(k - 1) : ps[j] = ps[k] THEN s ELSE Append(s, ps[k])
Unique(ps, out) == Unless(out = FirstOnes(ps, Len(ps)), "one representative of each group, in order of appearance")

----------------------------------------------------------------------------
(* S04 *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) ==   \* floor of the square root, between lo and hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt100(n) == Root(10000 * n, 0, 46000)    \* 100 times the square root

Midpoint(p, q, x2) == Unless(x2 = <<q[1] - p[1], q[2] - p[2]>>, "the midpoint is halfway")
Foot(p, q, r, x, mag) ==
  LET L == Dist2(p, q)
      k == Dot(p, q, r)
  IN Unless(IsFraction(x[1], k * (q[1] - p[1]), L, Tol(mag)) /\ IsFraction(x[2], k * (q[2] - p[2]), L, Tol(mag)),
            "the foot of the perpendicular")
(* x2: twice the first point minus twice p; e: second point minus first.   *)
Bisector(p, q, off, x2, e, mag) ==
  LET u == <<q[1] - p[1], q[2] - p[2]>>
      n == Abs(u[1]) + Abs(u[2])
      t == Tol(mag)
  IN Midpoint(p, q, x2)
     \cup Unless(Abs(e[1]) <= 32000 /\ Abs(e[2]) <= 32000 /\
                 Near(e[1] * e[1] + e[2] * e[2], F * F * off * off, 3 * t * F * Abs(off) + 2 * t * t),
                 "the second point is at the requested distance")
     \cup Unless(Near(e[1] * u[1] + e[2] * u[2], 0, t * n), "in a perpendicular direction")
(* x: incenter relative to p. *)
Incenter(p, q, r, k, x, rad, deg, mag) ==
  LET A == Cross(p, q, r)
      vs == IF A > 0 THEN <<p, q, r>> ELSE <<p, r, q>>
      t == Tol(mag)
      dist(i) == LET u == vs[i]
                     v == vs[IF i = 3 THEN 1 ELSE i + 1]
                 IN (v[1] - u[1]) * (x[2] - F * (u[2] - p[2])) - (v[2] - u[2]) * (x[1] - F * (u[1] - p[1]))
      len(i) == Sqrt100(Dist2(vs[i], vs[IF i = 3 THEN 1 ELSE i + 1]))
      longest == LET a == Dist2(p, q) b == Dist2(q, r) c == Dist2(r, p)
                 IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
      clear == A = 0 \/ 360 * Abs(A) >= longest  \* neither collinear nor clearly not: either answer
  IN Unless(clear => deg = (A = 0), "degenerate triangles are recognized")
     \cup Unless(k \in {"none", "some"} /\ (clear => (k = "none") = (A = 0)), "nothing is returned exactly for degenerate triangles")
     \cup (IF k # "some" \/ ~clear \/ A = 0 THEN {}
           ELSE IF ~(\A d \in 1..2 : Abs(x[d]) <= F * 200 /\ Abs(rad) <= F * 70)
           THEN {"the incenter is inside"}
           ELSE Unless(\A i \in 1..3 : dist(i) > 0, "the incenter is inside")
                \cup Unless(\A i \in 1..3 :
                        Near(dist(i), (rad * len(i)) \div 100, 2 * t * (len(i) \div 100 + 1) + rad \div 50 + 2),
                        "equal distance from all sides, the radius"))
Parallel(p, q, r, s, res) == Unless(res = (Den(p, q, r, s) = 0), "parallel exactly if the directions are")

----------------------------------------------------------------------------
(* S05, in space. *)
OnLine(p, u, x) ==
  LET w == <<x[1] - p[1], x[2] - p[2], x[3] - p[3]>> IN
  w[1] * u[2] = w[2] * u[1] /\ w[1] * u[3] = w[3] * u[1] /\ w[2] * u[3] = w[3] * u[2]
Contains(p, u, x, res) ==
  Unless(OnLine(p, u, x) => res, "a line contains its points")
  \cup Unless(res => OnLine(p, u, x), "a line contains no other point")
(* Points p + k / m u, moved off the line if off is not 0. *)
ContainsFraction(off, res) ==
  Unless((off = 0) => res, "a line contains its points")
  \cup Unless(res => (off = 0), "a line contains no other point")
============================================================================
