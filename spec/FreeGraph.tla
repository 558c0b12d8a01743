----------------------------- MODULE FreeGraph -----------------------------
(***************************************************************************)
(* The contract of the crease graph for nodes at any position.             *)
(*                                                                         *)
(* The specification CreaseGraph is about exact points; positions in the   *)
(* library are rounded.  Here positions are integers in a unit of at least *)
(* 2^-26 of the size of the drawing, judged with integers of any size, and *)
(* a request is judged if it is clear what it means, whatever rounding     *)
(* does: with M the largest coordinate of the drawing, points coincide up  *)
(* to M/2^20 or are more than M/2^13 apart, a point is on an edge up to    *)
(* M/2^19 or is farther than M/2^13 from it, edges cross at a sine of at   *)
(* least 1/2^5 and away from their ends and from other edges.  Edges that  *)
(* share a node may be at any angle.  What a clear request does is then a  *)
(* combinatorial matter: which edges are cut by the new node, through      *)
(* which nodes the new segment passes and which edges it crosses.          *)
(*                                                                         *)
(* States, calls and results are those of GraphContract, where a node is   *)
(* <<x, y, data, off, id>> (off = 1: not a number, or far outside; id: the *)
(* identity of the exact position).                                        *)
(***************************************************************************)
EXTENDS FineGeo, TLC

GC == INSTANCE GraphContract WITH
        Points <- {}, NodeData <- {}, EdgeData <- {}, MaxNodes <- 0, MaxEdges <- 0, nodes <- 0, edges <- 0

NN(st) == Len(st.N)
EN(st) == Len(st.E)
At0(st, i) == LET n == st.N[i + 1] IN <<n[1], n[2]>>      \* i counts from 0
Id(st, i) == st.N[i + 1][5]
Size(st) == IF NN(st) = 0 THEN 0 ELSE Mag([k \in 1..NN(st) |-> At0(st, k - 1)])

----------------------------------------------------------------------------
(* Clear positions.                                                        *)
AreSame(a, b, M) == N1(a, b) <= M \div 2^20
AreApart(a, b, M) == N1(a, b) >= 1 + M \div 2^12

(* The boxes are apart (cheaply recognized). *)
BoxOff(a, b, p, g) ==
  \/ p[1] < Min2(a[1], b[1]) - g \/ p[1] > Max2(a[1], b[1]) + g
  \/ p[2] < Min2(a[2], b[2]) - g \/ p[2] > Max2(a[2], b[2]) + g
(* The side of the line ab on which p is, farther away than M/2^k (0 if it  *)
(* is not).  Most are recognized with the leading digits: Rough is the     *)
(* area in units of 2^26, up to RoughErr.                                  *)
Rough(ux, uy, vx, vy) == ux * vy - vx * uy
Lead(x) == x \div 2^13
FarSide(a, b, p, M, k) ==
  LET ux == Lead(b[1]) - Lead(a[1])  uy == Lead(b[2]) - Lead(a[2])
      vx == Lead(p[1]) - Lead(a[1])  vy == Lead(p[2]) - Lead(a[2])
      r == Rough(ux, uy, vx, vy)
      n == Abs(ux) + Abs(uy) + 2
  IN IF Abs(r) > n + Abs(vx) + Abs(vy) + ((Lead(M) + 1) * n) \div 2^k + 1 THEN Sgn(r)
     ELSE LET x == WCross(a, b, p)
          IN IF WLeq(WInt(M) \otimes WInt(N1(a, b)), WAbs(x) \otimes WInt(2^k)) THEN WSign(x) ELSE 0
(* p is on the open segment ab / is not near it. *)
IsBetween(a, b, p, M) ==
  /\ ~BoxOff(a, b, p, 1 + M \div 2^12)
  /\ FarSide(a, b, p, M, 13) = 0
  /\ WSign(WDots(a, b, p)) > 0 /\ WSign(WDots(b, a, p)) > 0
  /\ WLeq(WAbs(WCross(a, b, p)) \otimes WInt(2^20), WInt(N1(a, b)) \otimes WInt(M))
IsOn(a, b, p, M) == AreApart(a, p, M) /\ AreApart(b, p, M) /\ IsBetween(a, b, p, M)
IsOff(a, b, p, M) ==
  \/ BoxOff(a, b, p, 1 + M \div 2^12)
  \/ FarSide(a, b, p, M, 13) # 0
  \/ LET t == WInt(M) \otimes WInt(N1(a, b))
     IN \/ WLeq(t, WNeg(WDots(a, b, p)) \otimes WInt(2^13))
        \/ WLeq(t, WNeg(WDots(b, a, p)) \otimes WInt(2^13))

(* c and d are on the same side of the line ab / on different sides.       *)
OneSide(a, b, c, d, M, k) ==
  LET x == FarSide(a, b, c, M, k) IN x # 0 /\ x = FarSide(a, b, d, M, k)
TwoSides(a, b, c, d, M, k) ==
  LET x == FarSide(a, b, c, M, k) IN x # 0 /\ x = -FarSide(a, b, d, M, k)

FarBoxes(a, b, c, d) ==
  LET g == Min2(N1(a, b), N1(c, d)) \div 2
  IN \/ Min2(a[1], b[1]) - g > Max2(c[1], d[1]) \/ Min2(c[1], d[1]) - g > Max2(a[1], b[1])
     \/ Min2(a[2], b[2]) - g > Max2(c[2], d[2]) \/ Min2(c[2], d[2]) - g > Max2(a[2], b[2])

(* Segments that have no point in common / that cross.                     *)
Apart2(a, b, c, d, M) ==
  \/ FarBoxes(a, b, c, d) /\ (BoxOff(a, b, c, 1 + M \div 2^12) /\ BoxOff(a, b, d, 1 + M \div 2^12))
  \/ OneSide(a, b, c, d, M, 14)
  \/ OneSide(c, d, a, b, M, 14)
  \/ /\ WLeq(WAbs(WDen(a, b, c, d)) \otimes WInt(2^20),      \* on one line
             WInt(Mag(<<a, b, c, d>>)) \otimes WInt(N1(a, b) + N1(c, d)))
     /\ IsOff(a, b, c, M) \/ AreSame(a, c, M) \/ AreSame(b, c, M)
     /\ IsOff(a, b, d, M) \/ AreSame(a, d, M) \/ AreSame(b, d, M)
     /\ ~(AreSame(a, c, M) /\ AreSame(b, d, M)) /\ ~(AreSame(a, d, M) /\ AreSame(b, c, M))
Cross2(a, b, c, d, M) ==
  /\ TwoSides(a, b, c, d, M, 13) /\ TwoSides(c, d, a, b, M, 13)
  /\ LET m == WAbs(WDen(a, b, c, d))
     IN /\ WLeq(WInt(N1(a, b)) \otimes WInt(N1(c, d)), m \otimes WInt(2^5))
        /\ WLeq(WInt(M) \otimes WInt(N1(a, b) + N1(c, d)), m \otimes WInt(2^16))

(* Where ab crosses cd: at a + (b - a) * Num / Den, as a pair with Den > 0. *)
Where2(a, b, c, d) ==
  LET m == WDen(a, b, c, d)
      t == WTNum(a, b, c, d)
  IN IF WSign(m) < 0 THEN <<WNeg(t), WNeg(m)>> ELSE <<t, m>>
(* That point is not near the line cd of another edge (first roughly: t is *)
(* the quotient to 2^-11, the point is right up to 12 leading units).      *)
Quotient(w) ==
  LET n == Len(w[2])
      top(v) == At(v, n) * Base + (IF n > 1 THEN At(v, n - 1) ELSE 0)
      s == IF top(w[2]) >= 2^20 THEN 2^8 ELSE IF top(w[2]) >= 2^16 THEN 2^4 ELSE 1
  IN <<top(w[1]) \div s, top(w[2]) \div s>>
FarFrom(a, b, w, c, d, M) ==
  LET t == Quotient(w)
      q(i) == Lead(a[i]) + ((Lead(b[i]) - Lead(a[i])) * t[1]) \div t[2]
      ux == Lead(d[1]) - Lead(c[1])  uy == Lead(d[2]) - Lead(c[2])
      vx == q(1) - Lead(c[1])  vy == q(2) - Lead(c[2])
      n == Abs(ux) + Abs(uy) + 2
  IN Abs(Rough(ux, uy, vx, vy)) > 14 * (n + Abs(vx) + Abs(vy)) + ((Lead(M) + 1) * n) \div 2^14 + 400
     \/ LET x == WCross(c, d, a)
            y == WCross(c, d, b)
        IN WLeq((WInt(M) \otimes WInt(N1(c, d))) \otimes w[2],
                WAbs((x \otimes w[2]) \oplus (w[1] \otimes (y \ominus x))) \otimes WInt(2^14))
Before(w, z) == WSign((z[1] \otimes w[2]) \ominus (w[1] \otimes z[2])) > 0

----------------------------------------------------------------------------
(* What a request means: [k |-> "unclear"], [k |-> "none", ...] (nothing   *)
(* to do) or what has to be cut and drawn.                                 *)
Unclear == [k |-> "unclear"]
Least == 2^23         \* positions are recorded to 1/2^24 of the size of the drawing, or better

(* add_node: same: the node that is already there; cut: the edge (slot     *)
(* counted from 1) the node falls on.                                      *)
NodeMeaning(pre, p) ==
  LET M == Max2(Size(pre), Mag(<<p>>))
      near == {i \in 0..(NN(pre) - 1) : ~AreApart(At0(pre, i), p, M)}
      e(k) == pre.E[k]
      on == {k \in 1..EN(pre) : ~IsOff(At0(pre, e(k)[1]), At0(pre, e(k)[2]), p, M)}
  IN IF M < Least THEN Unclear
     ELSE IF near # {}
     THEN IF Cardinality(near) = 1 /\ \A i \in near : AreSame(At0(pre, i), p, M)
          THEN [k |-> "same", same |-> CHOOSE i \in near : TRUE]
          ELSE Unclear
     ELSE IF Cardinality(on) <= 1 /\ \A k \in on : IsOn(At0(pre, e(k)[1]), At0(pre, e(k)[2]), p, M)
          THEN [k |-> "node", cut |-> on]
          ELSE Unclear

(* The nodes of S, all on one side of a on a line, in their order from a.  *)
RECURSIVE Along(_, _, _)
Along(st, a, S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE i \in S : \A j \in S : N1(a, At0(st, i)) <= N1(a, At0(st, j))
       IN <<m>> \o Along(st, a, S \ {m})
RECURSIVE Sorted(_)
Sorted(X) ==     \* crossings <<slot, where>> in their order
  IF X = {} THEN <<>>
  ELSE LET m == CHOOSE x \in X : \A y \in X : y = x \/ Before(x[2], y[2])
       IN <<m>> \o Sorted(X \ {m})

(* One piece uv of a new segment, with no node on it. *)
PieceMeaning(pre, u, v, M) ==
  LET a == At0(pre, u)
      b == At0(pre, v)
      c(k) == At0(pre, pre.E[k][1])
      d(k) == At0(pre, pre.E[k][2])
      joint == {k \in 1..EN(pre) : {pre.E[k][1], pre.E[k][2]} \cap {u, v} # {}}
      met == {k \in (1..EN(pre)) \ joint : ~Apart2(a, b, c(k), d(k), M)}
      X == TLCEval({<<k, Where2(a, b, c(k), d(k))>> : k \in met})
  IN IF \E k \in joint : {pre.E[k][1], pre.E[k][2]} = {u, v} THEN [k |-> "drawn", u |-> u, v |-> v, cross |-> <<>>]
     ELSE IF ~AreApart(a, b, M) \/ \E k \in met : ~Cross2(a, b, c(k), d(k), M) THEN Unclear
     ELSE IF \E x \in X : \E k \in (met \cup joint) \ {x[1]} : ~FarFrom(a, b, x[2], c(k), d(k), M) THEN Unclear
     ELSE [k |-> "draw", u |-> u, v |-> v, cross |-> Sorted(X)]

EdgeMeaning(pre, i, j) ==
  LET M == Size(pre)
      a == At0(pre, i)
      b == At0(pre, j)
      near == {n \in (0..(NN(pre) - 1)) \ {i, j} : ~IsOff(a, b, At0(pre, n), M)}
      stops == TLCEval(<<i>> \o Along(pre, a, near) \o <<j>>)
      pieces == TLCEval([n \in 1..(Len(stops) - 1) |-> PieceMeaning(pre, stops[n], stops[n + 1], M)])
  IN IF M < Least \/ ~AreApart(a, b, M) \/ \E n \in near : ~IsOn(a, b, At0(pre, n), M) THEN Unclear
     ELSE IF \E n \in 1..(Len(stops) - 1) : pieces[n] = Unclear THEN Unclear
     ELSE [k |-> "edge", pieces |-> pieces]

Meaning(pre, c) ==
  CASE c.op = "add_node" -> NodeMeaning(pre, <<c.a[1], c.a[2]>>)
    [] c.op = "add_edge" /\ ~GC!NoOp(pre, c) -> EdgeMeaning(pre, c.a[1], c.a[2])
    [] OTHER -> [k |-> "plain"]

----------------------------------------------------------------------------
(* States in which a position is its identity: for what is combinatorial.  *)
ById(st) == [N |-> [k \in 1..NN(st) |-> <<st.N[k][5], 0, st.N[k][3], 0, st.N[k][5]>>], E |-> st.E]
CallById(pre, c, m) ==
  IF c.op # "add_node" THEN c
  ELSE [op |-> c.op, a |-> <<IF m.k = "same" THEN Id(pre, m.same) ELSE c.a[4], 0, c.a[3]>>]

Ids(st) == {st.N[k][5] : k \in 1..NN(st)}
Fresh(pre, post) ==
  LET old == TLCEval(Ids(pre)) IN {n \in {post.N[k] : k \in 1..NN(post)} : n[5] \notin old}
Line0(st, k) == {Id(st, st.E[k][1]), Id(st, st.E[k][2])}
Line(st, k) == <<Line0(st, k), st.E[k][3]>>
Lines(st) == {Line(st, k) : k \in 1..EN(st)}

(* The new node that cuts edge k of pre and lies on uv. *)
Cutters(pre, post, u, v, k, M) ==
  {n \in Fresh(pre, post) :
     LET p == <<n[1], n[2]>> IN
       /\ n[4] = 0
       /\ IsBetween(At0(pre, pre.E[k][1]), At0(pre, pre.E[k][2]), p, M)
       /\ IsBetween(At0(pre, u), At0(pre, v), p, M)}

Halves(pre, k, x) == {<<{Id(pre, pre.E[k][1]), x}, pre.E[k][3]>>, <<{Id(pre, pre.E[k][2]), x}, pre.E[k][3]>>}
Uncut(pre, cut) == {Line(pre, k) : k \in (1..EN(pre)) \ cut}

Kept(pre, post) == \A k \in 1..NN(pre) : (k <= NN(post) /\ post.N[k] = pre.N[k])
                                         \/ pre.N[k] \in {post.N[j] : j \in 1..NN(post)}

NodeAdded(pre, c, m, post) ==
  LET x == c.a[4]
      want == Uncut(pre, m.cut) \cup UNION {Halves(pre, k, x) : k \in m.cut}
  IN UNION {
       FUnless(Kept(pre, post), "an existing node moved or changed"),
       FUnless(NN(post) = NN(pre) + 1 /\ Fresh(pre, post) = {<<c.a[1], c.a[2], c.a[3], 0, x>>},
               "new node not exactly the requested one"),
       FUnless(Uncut(pre, m.cut) \subseteq Lines(post), "an existing edge lost a part or its data"),
       FUnless(Lines(post) = want /\ EN(post) = EN(pre) + Cardinality(m.cut), "the edge is cut at the new node") }

EdgeAdded(pre, c, m, post) ==
  LET M == Size(pre)
      P == m.pieces
      X == {<<n, q>> : n \in 1..Len(P), q \in 1..EN(pre)} \cap
           UNION {{<<n, q>> : q \in 1..Len(P[n].cross)} : n \in 1..Len(P)}
      slot(x) == P[x[1]].cross[x[2]][1]
      by == TLCEval([x \in X |-> Cutters(pre, post, P[x[1]].u, P[x[1]].v, slot(x), M)])
      ok == \A x \in X : Cardinality(by[x]) = 1
      id == TLCEval([x \in X |-> IF by[x] = {} THEN -1 ELSE (CHOOSE n \in by[x] : TRUE)[5]])
      cut == {slot(x) : x \in X}
      chain(n) == LET w == Len(P[n].cross) IN
        [q \in 1..(w + 2) |-> IF q = 1 THEN Id(pre, P[n].u) ELSE IF q = w + 2 THEN Id(pre, P[n].v) ELSE id[<<n, q - 1>>]]
      new == UNION {LET s == chain(n) IN {<<{s[q], s[q + 1]}, c.a[3]>> : q \in 1..(Len(s) - 1)}
                      : n \in {n \in 1..Len(P) : P[n].k = "draw"}}
      want == Uncut(pre, cut) \cup UNION {Halves(pre, slot(x), id[x]) : x \in X} \cup new
      F == Fresh(pre, post)
  IN UNION {
       FUnless(Kept(pre, post), "an existing node moved or changed"),
       FUnless(ok /\ Cardinality(F) <= Cardinality(X), "new node elsewhere than at a crossing"),
       FUnless(NN(post) = NN(pre) + Cardinality(X), "number of nodes"),
       FUnless(\A n \in F : n[3] = 0, "new node without default data"),
       FUnless(Uncut(pre, cut) \subseteq Lines(post), "an existing edge lost a part or its data"),
       FUnless(ok => new \subseteq Lines(post), "the new segment is not drawn completely"),
       FUnless(ok => (Lines(post) = want /\ EN(post) = Cardinality(want)),
               "not the drawing that the request means") }

FreeAdd(pre, c, r, m, post) ==
  IF m.k = "plain" \/ m.k = "same" THEN GC!G02(ById(pre), CallById(pre, c, m), r, ById(post))
  ELSE IF r.k # "ok" THEN {"add " \o r.k}
  ELSE IF m.k = "node" THEN NodeAdded(pre, c, m, post)
  ELSE EdgeAdded(pre, c, m, post)

----------------------------------------------------------------------------
(* G01: what must not be there, where it is clear.                         *)
FreePlanar(pre, post) ==
  LET M == Size(post)
      ns == {k \in 1..NN(post) : k > NN(pre) \/ pre.N[k][5] # post.N[k][5]}
      es == {k \in 1..EN(post) : k > EN(pre) \/ Line0(pre, k) # Line0(post, k)}
      p(k) == At0(post, k - 1)
      a(k) == At0(post, post.E[k][1])
      b(k) == At0(post, post.E[k][2])
      ends(k) == {post.E[k][1], post.E[k][2]}
      inside(k, j) == (j - 1) \notin ends(k) /\ IsOn(a(k), b(k), p(j), M)
  IN UNION {
    FUnless(\A k \in 1..NN(post) : post.N[k][4] = 0, "a node without a position"),
    FUnless(\A k \in ns : \A j \in 1..NN(post) : j # k => ~AreSame(p(k), p(j), M), "two nodes at one position"),
    FUnless(\A k \in es : Cardinality(ends(k)) = 2, "edge from a node to itself"),
    FUnless((\A k \in es : \A j \in 1..NN(post) : ~inside(k, j)) /\
            (\A j \in ns : \A k \in 1..EN(post) : ~inside(k, j)), "node inside an edge"),
    FUnless(\A k \in es : \A j \in 1..EN(post) : j # k =>
              ends(j) # ends(k) /\ ~(ends(j) \cap ends(k) = {} /\ ~FarBoxes(a(k), b(k), a(j), b(j))
                                     /\ Cross2(a(k), b(k), a(j), b(j), M)),
            "edges cross or overlap") }

----------------------------------------------------------------------------
(* G04: indices. *)
FreeIndices(pre, c, r, m, post) ==
  IF r.k \notin {"ok", "err"} THEN {}
  ELSE UNION {
    IF c.op = "add_node" /\ r.k = "ok"
    THEN FUnless(/\ GC!InN(post, r.i)
                 /\ Id(post, r.i) = IF m.k = "same" THEN Id(pre, m.same) ELSE c.a[4],
                 "returned index does not refer to the node")
    ELSE {},
    IF ~GC!IsAdd(c) THEN {}
    ELSE FUnless(NN(post) >= NN(pre) /\ \A k \in 1..NN(pre) : post.N[k][5] = pre.N[k][5],
                 "a node changed its index")
         \cup
         LET lines == {Line0(post, k) : k \in 1..EN(post)}
             cut == IF m.k = "node" THEN m.cut
                    ELSE IF m.k = "edge" THEN UNION {{m.pieces[n].cross[q][1] : q \in 1..Len(m.pieces[n].cross)} : n \in 1..Len(m.pieces)}
                    ELSE {}
         IN FUnless(EN(post) >= EN(pre) /\ \A k \in 1..EN(pre) :
                 \/ Line0(post, k) = Line0(pre, k)
                 \/ k \in cut /\ Line0(pre, k) \notin lines
                    /\ Cardinality(Line0(post, k) \cap Line0(pre, k)) = 1
                    /\ Line0(post, k) \ Line0(pre, k) \subseteq {n[5] : n \in Fresh(pre, post)},
               "an edge changed its index") }

----------------------------------------------------------------------------
Judgeable(pre, c, m) == m.k # "unclear"

FreeFailed(prop, pre, c, r, m, post, q) ==
  IF ~Judgeable(pre, c, m) THEN {}
  ELSE IF ~GC!WellFormed(post)
  THEN IF prop = "G04" THEN {"an edge refers to a node that does not exist"} ELSE {}
  ELSE CASE prop = "G01" -> FreePlanar(pre, post)
         [] prop = "G02" -> IF GC!IsAdd(c) THEN FreeAdd(pre, c, r, m, post) ELSE {}
         [] prop = "G03" -> GC!G03(ById(pre), c, r, ById(post))
         [] prop = "G04" -> FreeIndices(pre, c, r, m, post)
         [] prop = "G05" -> GC!G05(ById(pre), c, r, ById(post))
         [] prop = "G06" -> IF m.k \in {"plain", "same"} THEN GC!G06(ById(pre), CallById(pre, c, m), r, ById(post)) ELSE {}
         [] prop = "G07" -> GC!G07(pre, c, r, post, q)
         [] OTHER -> {}

(* The state after this call is one that a following call can start from.  *)
FreeSound(pre, c, r, m, post) ==
  /\ Judgeable(pre, c, m) /\ r.k \in {"ok", "err"}
  /\ GC!WellFormed(post)
  /\ \A k \in 1..NN(post) : post.N[k][4] = 0
  /\ GC!IsAdd(c) => FreeAdd(pre, c, r, m, post) = {}
============================================================================
