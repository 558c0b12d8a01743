------------------------------ MODULE Geom2D ------------------------------
(***************************************************************************)
(* Exact plane geometry over integer points, shared by the specifications  *)
(* of the crease graph, of polygons and of the geometric utilities.        *)
(* A point is a pair <<x, y>>; a segment is a pair of points in            *)
(* lexicographic order, so that equal segments are equal values.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Twice the signed area of the triangle a b c. *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])
(* (b - a) . (c - a) *)
Dot(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
Dist2(a, b) == Dot(a, b, b)

InBox(a, b, p) ==
  /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
  /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])

(* p is a point of the closed segment ab / of its relative interior. *)
OnClosed(a, b, p) == InBox(a, b, p) /\ Cross(a, b, p) = 0
OnOpen(a, b, p) == p # a /\ p # b /\ OnClosed(a, b, p)

BoxesMeet(a, b, c, d) ==
  /\ Min2(a[1], b[1]) <= Max2(c[1], d[1]) /\ Min2(c[1], d[1]) <= Max2(a[1], b[1])
  /\ Min2(a[2], b[2]) <= Max2(c[2], d[2]) /\ Min2(c[2], d[2]) <= Max2(a[2], b[2])

(* The two segments cross at a single point interior to both. *)
CrossProperly(a, b, c, d) ==
  /\ BoxesMeet(a, b, c, d)
  /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) = -1
  /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) = -1

(* The two closed segments have a point in common. *)
Meet(a, b, c, d) ==
  \/ CrossProperly(a, b, c, d)
  \/ OnClosed(a, b, c) \/ OnClosed(a, b, d) \/ OnClosed(c, d, a) \/ OnClosed(c, d, b)

(* Two segments that have a point in common which is not an endpoint of    *)
(* both: what a planar straight-line drawing must not contain.             *)
Conflict(a, b, c, d) ==
  /\ BoxesMeet(a, b, c, d)
  /\ \/ (a = c /\ b = d) \/ (a = d /\ b = c)
     \/ OnOpen(a, b, c) \/ OnOpen(a, b, d) \/ OnOpen(c, d, a) \/ OnOpen(c, d, b)
     \/ CrossProperly(a, b, c, d)

LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Seg(p, q) == IF LexLess(p, q) THEN <<p, q>> ELSE <<q, p>>

(* The meeting point of two properly crossing segments, if it is a lattice *)
(* point (otherwise NoPoint).                                              *)
NoPoint == <<-1000000, -1000000>>
CrossPoint(a, b, c, d) ==
  LET d3 == Cross(c, d, a)
      d4 == Cross(c, d, b)
      k  == d3 - d4
      s  == Sgn(k)
      nx == (b[1] - a[1]) * d3 * s
      ny == (b[2] - a[2]) * d3 * s
      m  == k * s
  IN IF nx % m = 0 /\ ny % m = 0
     THEN <<a[1] + (nx \div m), a[2] + (ny \div m)>>
     ELSE NoPoint

(* The maximal pieces of segment s = <<p, q>> between the given points     *)
(* (those that lie on it) and its ends.                                    *)
Cut(s, pts) ==
  LET on == {p \in pts : OnOpen(s[1], s[2], p)} \cup {s[1], s[2]}
  IN IF Cardinality(on) = 2 THEN {s}
     ELSE {<<u, v>> \in on \X on :
             LexLess(u, v) /\ ~\E w \in on : LexLess(u, w) /\ LexLess(w, v)}
===========================================================================
