--------------------------- MODULE GraphContract ---------------------------
(***************************************************************************)
(* The contract of one call on PlanarGraph, at the level of its public     *)
(* interface (lists of nodes and edges, indices, reported changes).        *)
(*                                                                         *)
(*   state  [N |-> <<n0, n1, ...>>, E |-> <<e0, e1, ...>>]                 *)
(*          n = <<x, y, data, off, id>>   off = 1: not at a lattice point  *)
(*                                        id: identity of the exact floats *)
(*          e = <<src, dst, data>>        indices are 0-based, as in Rust  *)
(*   call   [op, a]      result  [k, i, n, e]                              *)
(*          k: "ok" | "err" | "panic" | "dead" (aborted or never returned) *)
(*          i: returned node index, n / e: reported node / edge indices    *)
(*                                                                         *)
(* Failed(prop, pre, call, res, post) is the set of names of the clauses   *)
(* of property prop that the step violates.  The same operator judges      *)
(* every transition of CreaseGraphIndexed (the algorithm, explored by TLC) *)
(* and every recorded call of the real library (GraphTrace).               *)
(***************************************************************************)
EXTENDS Geom2D, TLC

CONSTANTS Points, NodeData, EdgeData, MaxNodes, MaxEdges
VARIABLES nodes, edges
CG == INSTANCE CreaseGraph

Pos(n) == <<n[1], n[2]>>
NC(st) == Len(st.N)
EC(st) == Len(st.E)
WellFormed(st) == \A k \in 1..EC(st) : st.E[k][1] < NC(st) /\ st.E[k][2] < NC(st)
                                       /\ st.E[k][1] >= 0 /\ st.E[k][2] >= 0
OnLattice(st) == \A k \in 1..NC(st) : st.N[k][4] = 0

A(st, e) == Pos(st.N[e[1] + 1])
B(st, e) == Pos(st.N[e[2] + 1])
SegOf(st, e) == Seg(A(st, e), B(st, e))
SegAt(st, k) == SegOf(st, st.E[k])
Drawn(st, k) == <<SegAt(st, k), st.E[k][3]>>

Places(st) == {Pos(st.N[k]) : k \in 1..NC(st)}
NodeSet(st) == {st.N[k] : k \in 1..NC(st)}
Drawing(st) == {Drawn(st, k) : k \in 1..EC(st)}
SegSet(st) == {SegAt(st, k) : k \in 1..EC(st)}

(* The abstraction: the drawing of CreaseGraph that a state represents.    *)
AbsN(st) == [p \in Places(st) |-> (CHOOSE n \in NodeSet(st) : Pos(n) = p)[3]]
AbsE(st) == [s \in SegSet(st) |-> (CHOOSE d \in Drawing(st) : d[1] = s)[2]]

----------------------------------------------------------------------------
(* Which requests change nothing.                                          *)
InN(st, i) == i >= 0 /\ i < NC(st)
InE(st, i) == i >= 0 /\ i < EC(st)

Joined(st, i, j) == \E k \in 1..EC(st) : {st.E[k][1], st.E[k][2]} = {i, j}

Rejected(pre, c) == c.op = "add_edge" /\ ~(InN(pre, c.a[1]) /\ InN(pre, c.a[2]))
NoOp(pre, c) ==
  CASE c.op = "add_node"    -> <<c.a[1], c.a[2]>> \in Places(pre)
    [] c.op = "add_edge"    -> Rejected(pre, c) \/ c.a[1] = c.a[2] \/ Joined(pre, c.a[1], c.a[2])
    [] c.op = "remove_node" -> ~InN(pre, c.a[1])
    [] c.op = "remove_edge" -> ~InE(pre, c.a[1])
    [] OTHER -> TRUE
IsAdd(c) == c.op \in {"add_node", "add_edge"}
IsRemove(c) == c.op \in {"remove_node", "remove_edge"}

Range0(s) == {s[k] : k \in 1..Len(s)}
If(cond, name) == IF cond THEN {} ELSE {name}

----------------------------------------------------------------------------
(* G01: a planar straight-line drawing (given that the state before was    *)
(* one, only what changed has to be looked at).                            *)
NewNodeSlots(pre, post) == {k \in 1..NC(post) : k > NC(pre) \/ Pos(pre.N[k]) # Pos(post.N[k])}
NewEdgeSlots(pre, post) == {k \in 1..EC(post) : k > EC(pre) \/ SegAt(pre, k) # SegAt(post, k)}

G01(pre, c, r, post) ==
  LET ns == NewNodeSlots(pre, post)
      es == NewEdgeSlots(pre, post)
      seg == [k \in 1..EC(post) |-> SegAt(post, k)]
      pos == [k \in 1..NC(post) |-> Pos(post.N[k])]
  IN UNION {
    If(\A k \in ns : \A j \in 1..NC(post) : j # k => pos[j] # pos[k], "two nodes at one position"),
    If(\A k \in es : post.E[k][1] # post.E[k][2] /\ seg[k][1] # seg[k][2], "edge from a node to itself"),
    If(\A k \in es : \A j \in 1..NC(post) : ~OnOpen(seg[k][1], seg[k][2], pos[j]), "node inside an edge"),
    If(\A k \in ns : \A j \in 1..EC(post) : ~OnOpen(seg[j][1], seg[j][2], pos[k]), "node inside an edge"),
    If(\A k \in es : \A j \in 1..EC(post) :
          j # k => ~Conflict(seg[k][1], seg[k][2], seg[j][1], seg[j][2]), "edges cross or overlap") }

(* The same for a whole state. *)
PlanarState(st) == G01([N |-> <<>>, E |-> <<>>], 0, 0, st) = {}

----------------------------------------------------------------------------
(* G02: additive operations.                                               *)
Survivors(pre, post) ==      \* every old node is still there, bit for bit
  \A k \in 1..NC(pre) :
    (k <= NC(post) /\ post.N[k] = pre.N[k]) \/ pre.N[k] \in NodeSet(post)

OldEdgesKept(pre, post) ==
  LET D == Drawing(post)
  IN \A k \in 1..EC(pre) :
       \/ (k <= EC(post) /\ Drawn(post, k) = Drawn(pre, k))
       \/ LET s == SegAt(pre, k)
              pieces == {d \in D : CG!Within(d[1], s)}
          IN CG!CoveredBy(s, {d[1] : d \in pieces}) /\ \A d \in pieces : d[2] = pre.E[k][3]

(* Edges that were not drawn before and are not part of an old edge.       *)
FreshEdges(pre, post) ==
  LET old == SegSet(pre)
  IN {d \in Drawing(post) \ Drawing(pre) : \A s \in old : ~CG!Within(d[1], s)}

FreshNodes(pre, post) ==
  {n \in NodeSet(post) : Pos(n) \notin Places(pre)}

G02AddNode(pre, c, r, post) ==
  LET p == <<c.a[1], c.a[2]>>
  IN UNION {
    If(Survivors(pre, post), "an existing node moved or changed"),
    If(NC(post) = NC(pre) + 1 /\
       \A n \in FreshNodes(pre, post) : n[3] = c.a[3] /\ Pos(n) = p /\ n[4] = 0,
       "new node not exactly the requested one"),
    If(p \in Places(post), "requested node missing"),
    If(OldEdgesKept(pre, post), "an existing edge lost a part or its data"),
    If(FreshEdges(pre, post) = {}, "an edge appeared") }

G02AddEdge(pre, c, r, post) ==
  LET a == Pos(pre.N[c.a[1] + 1])
      b == Pos(pre.N[c.a[2] + 1])
      s == Seg(a, b)
      X == CG!Crossings(AbsE(pre), a, b)
      fresh == FreshNodes(pre, post)
  IN UNION {
    If(Survivors(pre, post), "an existing node moved or changed"),
    If(\A n \in fresh : n[4] = 0 /\ Pos(n) \in X, "new node elsewhere than at a crossing"),
    If(NC(post) = NC(pre) + Cardinality(fresh), "number of nodes"),
    If(\A n \in fresh : n[3] = CG!None, "new node without default data"),
    If(OldEdgesKept(pre, post), "an existing edge lost a part or its data"),
    If(CG!CoveredBy(s, {d[1] : d \in {d \in Drawing(post) : CG!Within(d[1], s)}}),
       "the new segment is not drawn completely"),
    If(\A d \in FreshEdges(pre, post) : CG!Within(d[1], s), "an edge drawn outside the new segment"),
    If(\A d \in FreshEdges(pre, post) : d[2] = c.a[3], "new piece without the new data") }

(* A request that is rejected or has nothing to do must not disturb        *)
(* anything either (for its result, see G06).                              *)
Undisturbed(pre, post) ==
  UNION {
    If(Survivors(pre, post), "an existing node moved or changed"),
    If(NC(post) = NC(pre) /\ FreshNodes(pre, post) = {}, "number of nodes"),
    If(EC(post) = EC(pre) /\ Drawing(pre) = Drawing(post), "an existing edge lost a part or its data") }

(* What CreaseGraph says the drawing must be afterwards, exactly.          *)
Expected(pre, c) ==
  IF c.op = "add_node" THEN CG!AfterAddNode(AbsN(pre), AbsE(pre), <<c.a[1], c.a[2]>>, c.a[3])
  ELSE CG!AfterAddEdge(AbsN(pre), AbsE(pre), Pos(pre.N[c.a[1] + 1]), Pos(pre.N[c.a[2] + 1]), c.a[3])

G02(pre, c, r, post) ==
  IF ~IsAdd(c) THEN {}
  ELSE IF NoOp(pre, c) THEN IF r.k \in {"ok", "err"} THEN Undisturbed(pre, post) ELSE {}
  ELSE IF r.k # "ok" THEN {"add " \o r.k}
  ELSE LET f == IF c.op = "add_node" THEN G02AddNode(pre, c, r, post)
                ELSE G02AddEdge(pre, c, r, post)
       IN IF f # {} \/ G01(pre, c, r, post) # {} THEN f
          ELSE LET x == Expected(pre, c)
               IN If(AbsN(post) = x.N /\ AbsE(post) = x.E /\ NC(post) = Cardinality(DOMAIN x.N)
                     /\ EC(post) = Cardinality(DOMAIN x.E), "not the drawing CreaseGraph specifies")

----------------------------------------------------------------------------
(* G03: removals.                                                          *)
G03(pre, c, r, post) ==
  IF ~IsRemove(c) THEN {}
  ELSE IF NoOp(pre, c) THEN IF r.k \in {"ok", "err"} THEN Undisturbed(pre, post) ELSE {"removal " \o r.k}
  ELSE IF r.k # "ok" THEN {"removal " \o r.k}
  ELSE LET i == c.a[1]
           gone == IF c.op = "remove_edge" THEN {i + 1}
                   ELSE {k \in 1..EC(pre) : pre.E[k][1] = i \/ pre.E[k][2] = i}
           left == 1..EC(pre) \ gone
           used == UNION {{pre.E[k][1], pre.E[k][2]} : k \in left}
           strays == {j \in UNION {{pre.E[k][1], pre.E[k][2]} : k \in gone} : j \notin used}
           out == strays \cup (IF c.op = "remove_node" THEN {i} ELSE {})
           stay == {k \in 1..NC(pre) : (k - 1) \notin out}
           wantN == {pre.N[k] : k \in stay}
           wantE == {Drawn(pre, k) : k \in left}
       IN UNION {
            If(wantN \subseteq NodeSet(post), "a node that should survive is missing or changed"),
            If(NodeSet(post) \subseteq wantN /\ NC(post) = Cardinality(stay), "a node that should go is still there"),
            If(wantE \subseteq Drawing(post), "an edge that should survive is missing or changed"),
            If(Drawing(post) \subseteq wantE /\ EC(post) = Cardinality(left), "an edge that should go is still there") }

----------------------------------------------------------------------------
(* G04: indices.                                                           *)
G04(pre, c, r, post) ==
  IF r.k \notin {"ok", "err"} THEN {}
  ELSE UNION {
    IF c.op = "add_node" /\ r.k = "ok"
    THEN If(InN(post, r.i) /\ Pos(post.N[r.i + 1]) = <<c.a[1], c.a[2]>> /\ post.N[r.i + 1][4] = 0,
            "returned index does not refer to the node")
    ELSE {},
    IF ~IsAdd(c) THEN {}
    ELSE UNION {
      If(NC(post) >= NC(pre) /\ \A k \in 1..NC(pre) : Pos(post.N[k]) = Pos(pre.N[k]),
         "a node changed its index"),
      LET segs == SegSet(post)
      IN If(EC(post) >= EC(pre) /\ \A k \in 1..EC(pre) :
              \/ SegAt(post, k) = SegAt(pre, k)
              \/ /\ SegAt(pre, k) \notin segs
                 /\ CG!Within(SegAt(post, k), SegAt(pre, k)),
            "an edge changed its index") } }

----------------------------------------------------------------------------
(* G05: reported changes.                                                  *)
ChangedNodes(pre, post) ==
  {k - 1 : k \in {k \in 1..Max2(NC(pre), NC(post)) :
     \/ k > NC(pre) \/ k > NC(post)
     \/ Pos(pre.N[k]) # Pos(post.N[k]) \/ pre.N[k][3] # post.N[k][3]}}
ChangedEdges(pre, post) ==
  {k - 1 : k \in {k \in 1..Max2(EC(pre), EC(post)) :
     k > EC(pre) \/ k > EC(post) \/ Drawn(pre, k) # Drawn(post, k)}}

G05(pre, c, r, post) ==
  IF r.k # "ok" \/ ~(IsAdd(c) \/ IsRemove(c)) THEN {}
  ELSE LET cn == ChangedNodes(pre, post)
           ce == ChangedEdges(pre, post)
           rn == Range0(r.n) \cup (IF c.op = "add_node" THEN {r.i} ELSE {})
           re == Range0(r.e)
       IN UNION {
            If(cn \subseteq rn, "a changed node is not reported"),
            If(Range0(r.n) \subseteq cn, "a node is reported that did not change"),
            If(ce \subseteq re, "a changed edge is not reported"),
            If(re \subseteq ce, "an edge is reported that did not change") }

----------------------------------------------------------------------------
(* G06: requests that change nothing.                                      *)
G06(pre, c, r, post) ==
  IF ~(IsAdd(c) \/ IsRemove(c)) \/ ~NoOp(pre, c) THEN {}
  ELSE IF r.k \in {"panic", "dead"} THEN {"request without effect: " \o r.k}
  ELSE UNION {
    If(post.N = pre.N, "nodes changed"),
    If(post.E = pre.E, "edges changed"),
    If(r.n = <<>> /\ r.e = <<>>, "changes reported"),
    If((r.k = "err") <=> Rejected(pre, c), "accepted instead of rejected, or the other way round"),
    IF c.op = "add_node"
    THEN If(InN(pre, r.i) /\ Pos(pre.N[r.i + 1]) = <<c.a[1], c.a[2]>>,
            "returned index is not that of the existing node")
    ELSE {} }

----------------------------------------------------------------------------
(* G07: queries.  q.nodes: <<index, has, some, x, y, degree or -1>>,       *)
(* q.edges: <<index, has, some, src, dst, data, nodes it includes>>,       *)
(* q.pairs: <<a, b, has_edge_between>>.                                    *)
Bool(x) == x = 1
G07(pre, c, r, post, q) ==
  IF c.op = "init" THEN If(post.N = <<>> /\ post.E = <<>>, "new graph not empty")
  ELSE IF c.op # "query" THEN {}
  ELSE IF r.k # "ok" THEN {"query " \o r.k}
  ELSE LET deg(i) == Cardinality({k \in 1..EC(post) : post.E[k][1] = i \/ post.E[k][2] = i})
       IN UNION {
    If(q.nc = NC(post), "node_count"),
    If(q.ec = EC(post), "edge_count"),
    If(\A k \in 1..Len(q.nodes) : LET u == q.nodes[k] IN Bool(u[2]) = InN(post, u[1]), "has_node_at_index"),
    If(\A k \in 1..Len(q.nodes) : LET u == q.nodes[k] IN
         /\ Bool(u[3]) = InN(post, u[1])
         /\ Bool(u[3]) => <<u[4], u[5]>> = Pos(post.N[u[1] + 1]), "get_vertex"),
    If(\A k \in 1..Len(q.nodes) : LET u == q.nodes[k] IN
         u[6] = (IF InN(post, u[1]) THEN deg(u[1]) ELSE -1), "number_of_edges_incident_to"),
    If(\A k \in 1..Len(q.edges) : LET u == q.edges[k] IN Bool(u[2]) = InE(post, u[1]), "has_edge_at_index"),
    If(\A k \in 1..Len(q.edges) : LET u == q.edges[k] IN
         /\ Bool(u[3]) = InE(post, u[1])
         /\ Bool(u[3]) => <<u[4], u[5], u[6]>> = post.E[u[1] + 1], "get_edge"),
    If(\A k \in 1..Len(q.edges) : LET u == q.edges[k] IN
         InE(post, u[1]) => Range0(u[7]) = {post.E[u[1] + 1][1], post.E[u[1] + 1][2]}, "includes"),
    If(\A k \in 1..Len(q.pairs) : LET u == q.pairs[k] IN
         Bool(u[3]) = Joined(post, u[1], u[2]), "has_edge_between_nodes"),
    If(post.N = pre.N /\ post.E = pre.E, "a query changed the graph") }

----------------------------------------------------------------------------
NoQ == [nc |-> 0, ec |-> 0, nodes |-> <<>>, edges |-> <<>>, pairs |-> <<>>]

Failed(prop, pre, c, r, post, q) ==
  IF ~WellFormed(post)
  THEN IF prop = "G04" THEN {"an edge refers to a node that does not exist"}
       ELSE IF prop = "G06" THEN G06(pre, c, r, post) ELSE {}
  ELSE CASE prop = "G01" -> IF OnLattice(post) THEN G01(pre, c, r, post) ELSE {}
         [] prop = "G02" -> G02(pre, c, r, post)
         [] prop = "G03" -> G03(pre, c, r, post)
         [] prop = "G04" -> G04(pre, c, r, post)
         [] prop = "G05" -> G05(pre, c, r, post)
         [] prop = "G06" -> G06(pre, c, r, post)
         [] prop = "G07" -> G07(pre, c, r, post, q)
         [] OTHER -> {}

(* A state that the contract of a following call can start from.           *)
Sound(st) == WellFormed(st) /\ OnLattice(st)
============================================================================
