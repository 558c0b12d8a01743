----------------------------- MODULE Segments -----------------------------
(***************************************************************************)
(* The formulas behind the predicates and constructions of polygon.rs and  *)
(* utils.rs, in exact arithmetic, against their geometric definitions, for *)
(* all choices of four points on a small grid.                             *)
(***************************************************************************)
EXTENDS Geom2D

CONSTANTS W, H
Grid == (0..(W - 1)) \X (0..(H - 1))

VARIABLES a, b, c, d, all
svars == <<a, b, c, d, all>>
Nowhere == <<0, 0>>
SInit == a \in Grid /\ b \in Grid /\ c = Nowhere /\ d = Nowhere /\ all = FALSE
SNext == ~all /\ all' = TRUE /\ c' \in Grid /\ d' \in Grid /\ UNCHANGED <<a, b>>
SSpec == SInit /\ [][SNext]_svars

----------------------------------------------------------------------------
(* polygon.rs *)
Left(p, q, r) == Cross(p, q, r) > 0
Collinear(p, q, r) == Cross(p, q, r) = 0
Xor(x, y) == x # y
IntersectProp(p, q, r, s) ==
  /\ ~(Collinear(p, q, r) \/ Collinear(p, q, s) \/ Collinear(r, s, p) \/ Collinear(r, s, q))
  /\ Xor(Left(p, q, r), Left(p, q, s)) /\ Xor(Left(r, s, p), Left(r, s, q))
Within(x, y, z) == (x <= z /\ z <= y) \/ (x >= z /\ z >= y)
Between(p, q, r) == Collinear(p, q, r) /\ Within(p[1], q[1], r[1]) /\ Within(p[2], q[2], r[2])
Intersect(p, q, r, s) ==
  IntersectProp(p, q, r, s) \/ Between(p, q, r) \/ Between(p, q, s) \/ Between(r, s, p) \/ Between(r, s, q)

(* A point of a segment that is known to exist because of its fractions:   *)
(* the definition by parameters, k / m of the way.                         *)
MeetsByDefinition(p, q, r, s) ==
  (* two closed segments are disjoint iff a line separates them: try the   *)
  (* lines of both segments and those through one end of each, shifted     *)
  ~\E u, v \in {p, q, r, s} \cup {<<p[1] - p[2] + q[2], p[2] + p[1] - q[1]>>, <<r[1] - r[2] + s[2], r[2] + r[1] - s[1]>>} :
     /\ u # v
     /\ LET sp == Cross(u, v, p)  sq == Cross(u, v, q)
            sr == Cross(u, v, r)  ss == Cross(u, v, s)
        IN Max2(sp, sq) < Min2(sr, ss) \/ Max2(sr, ss) < Min2(sp, sq)

PredicatesRight ==
  all =>
    /\ Between(a, b, c) = OnClosed(a, b, c)
    /\ IntersectProp(a, b, c, d) = CrossProperly(a, b, c, d)
    /\ Intersect(a, b, c, d) = Meet(a, b, c, d)
    /\ (a # b /\ c # d) => Meet(a, b, c, d) = MeetsByDefinition(a, b, c, d)

----------------------------------------------------------------------------
(* utils.rs *)
Den(p, q, r, s) == (q[1] - p[1]) * (s[2] - r[2]) - (s[1] - r[1]) * (q[2] - p[2])
SNum(p, q, r, s) == (q[1] - p[1]) * (p[2] - r[2]) - (q[2] - p[2]) * (p[1] - r[1])
TNum(p, q, r, s) == (s[1] - r[1]) * (p[2] - r[2]) - (s[2] - r[2]) * (p[1] - r[1])
(* 0 <= num / den <= 1 *)
UnitRange(n, m) == IF m > 0 THEN 0 <= n /\ n <= m ELSE m <= n /\ n <= 0
Found(p, q, r, s) ==
  LET m == Den(p, q, r, s) IN m # 0 /\ UnitRange(SNum(p, q, r, s), m) /\ UnitRange(TNum(p, q, r, s), m)
(* The point p + t (q - p), times den. *)
TimesDen(p, q, r, s) ==
  LET m == Den(p, q, r, s)
      t == TNum(p, q, r, s)
  IN <<m * p[1] + t * (q[1] - p[1]), m * p[2] + t * (q[2] - p[2])>>

IntersectionsRight ==
  (all /\ a # b /\ c # d) =>
    LET m == Den(a, b, c, d)
        x == TimesDen(a, b, c, d)
        Big(p) == <<m * p[1], m * p[2]>>
    IN /\ m # 0 => Found(a, b, c, d) = Meet(a, b, c, d)
       /\ m = 0 => ~Found(a, b, c, d)
       (* the point is on both lines *)
       /\ m # 0 => Cross(Big(a), Big(b), x) = 0 /\ Cross(Big(c), Big(d), x) = 0
       (* and the same whatever the order *)
       /\ m # 0 =>
            \A v \in {<<b, a, c, d>>, <<a, b, d, c>>, <<c, d, a, b>>, <<d, c, b, a>>} :
              LET y == TimesDen(v[1], v[2], v[3], v[4])
                  k == Den(v[1], v[2], v[3], v[4])
              IN k # 0 /\ k * x[1] = m * y[1] /\ k * x[2] = m * y[2]

OnSegmentRight ==
  (all /\ a # b) =>
    (Cross(a, b, c) = 0 /\ Dot(a, b, c) > 0 /\ Dot(b, a, c) > 0) = OnOpen(a, b, c)

(* The foot of the perpendicular from c to the line ab, times |ab|^2. *)
FootRight ==
  (all /\ a # b) =>
    LET L == Dist2(a, b)
        k == (b[2] - a[2]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[2] - a[2])
        f == <<L * c[1] - k * (b[2] - a[2]), L * c[2] + k * (b[1] - a[1])>>
        Big(p) == <<L * p[1], L * p[2]>>
    IN Cross(Big(a), Big(b), f) = 0 /\ (b[1] - a[1]) * (f[1] - L * c[1]) + (b[2] - a[2]) * (f[2] - L * c[2]) = 0
=============================================================================
