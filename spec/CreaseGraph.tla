---------------------------- MODULE CreaseGraph ----------------------------
(***************************************************************************)
(* The crease graph as its user sees it: a planar straight-line drawing.   *)
(* There are no indices here: a node is its position, an edge is the       *)
(* segment it draws.  The state is a pair of functions                     *)
(*    nodes : position -> data          edges : segment -> data            *)
(* and every public operation of PlanarGraph is one action.                *)
(*                                                                         *)
(* The operators After... are pure; CreaseGraphIndexed (the algorithm of   *)
(* the code) and GraphTrace (the recorded executions of the code) are      *)
(* checked against them.                                                   *)
(***************************************************************************)
EXTENDS Geom2D, TLC

None == 0       \* the data of nodes that nobody asked for (Default::default())

----------------------------------------------------------------------------
(* What each operation makes of a drawing.                                 *)

Ends(s) == {s[1], s[2]}
Incident(E, p) == {s \in DOMAIN E : p \in Ends(s)}
Restrict(f, S) == [x \in S |-> f[x]]

(* Points at which a new segment ab crosses what is drawn. *)
CrossedBy(E, a, b) == {s \in DOMAIN E : CrossProperly(a, b, s[1], s[2])}
Crossings(E, a, b) == {CrossPoint(a, b, s[1], s[2]) : s \in CrossedBy(E, a, b)}
Representable(E, a, b) == NoPoint \notin Crossings(E, a, b)

(* The drawing with every edge cut at the given points. *)
CutAt(E, pts) ==
  LET hit  == {s \in DOMAIN E : \E p \in pts : OnOpen(s[1], s[2], p)}
      part == [s \in hit |-> Cut(s, pts)]
  IN [t \in (DOMAIN E \ hit) \cup UNION {part[s] : s \in hit} |->
        IF t \in DOMAIN E /\ t \notin hit THEN E[t]
        ELSE E[CHOOSE s \in hit : t \in part[s]]]

AfterAddNode(N, E, p, d) ==
  IF p \in DOMAIN N THEN [N |-> N, E |-> E]
  ELSE [N |-> (p :> d) @@ N, E |-> CutAt(E, {p})]

AfterAddEdge(N, E, a, b, d) ==
  IF a = b THEN [N |-> N, E |-> E]
  ELSE LET X   == Crossings(E, a, b)
           N2  == N @@ [x \in (X \ DOMAIN N) |-> None]
           E2  == CutAt(E, X)
           new == Cut(Seg(a, b), DOMAIN N2) \ DOMAIN E2
       IN [N |-> N2, E |-> E2 @@ [s \in new |-> d]]

(* Endpoints of the removed edges that no remaining edge touches go too.   *)
AfterRemoveNode(N, E, p) ==
  LET gone   == Incident(E, p)
      left   == DOMAIN E \ gone
      strays == {q \in UNION {Ends(s) : s \in gone} : \A s \in left : q \notin Ends(s)}
  IN [N |-> Restrict(N, DOMAIN N \ ({p} \cup strays)), E |-> Restrict(E, left)]

AfterRemoveEdge(N, E, s) ==
  LET left   == DOMAIN E \ {s}
      strays == {q \in Ends(s) : \A t \in left : q \notin Ends(t)}
  IN [N |-> Restrict(N, DOMAIN N \ strays), E |-> Restrict(E, left)]

----------------------------------------------------------------------------
(* Properties of a drawing and of a change of drawing.                     *)

Planar(N, E) ==
  /\ \A s \in DOMAIN E : s[1] # s[2] /\ Ends(s) \subseteq DOMAIN N
  /\ \A s \in DOMAIN E, p \in DOMAIN N : ~OnOpen(s[1], s[2], p)
  /\ \A s, t \in DOMAIN E : s # t => ~Conflict(s[1], s[2], t[1], t[2])

(* s is covered by the segments of S: no gap between consecutive pieces.   *)
CoveredBy(s, S) ==
  LET par(p) == Dot(s[1], s[2], p)
      len    == par(s[2])
      iv     == {<<par(t[1]), par(t[2])>> : t \in
                   {t \in S : Cross(s[1], s[2], t[1]) = 0 /\ Cross(s[1], s[2], t[2]) = 0}}
      marks  == {0} \cup {i[2] : i \in iv}
  IN \A m \in marks : (0 <= m /\ m < len) => \E i \in iv : i[1] <= m /\ m < i[2]

Within(t, s) == OnClosed(s[1], s[2], t[1]) /\ OnClosed(s[1], s[2], t[2])

(* Nothing that was drawn is lost, moved or recolored.                     *)
Preserves(N, E, N2, E2) ==
  /\ \A p \in DOMAIN N : p \in DOMAIN N2 /\ N2[p] = N[p]
  /\ \A s \in DOMAIN E :
       LET pieces == {t \in DOMAIN E2 : Within(t, s)}
       IN CoveredBy(s, pieces) /\ \A t \in pieces : E2[t] = E[s]

----------------------------------------------------------------------------
(* The state machine.                                                      *)
CONSTANTS
  Points,      \* positions at which the user places nodes
  NodeData,    \* data the user gives to nodes
  EdgeData,    \* data the user gives to edges
  MaxNodes,    \* state constraint
  MaxEdges

VARIABLES nodes, edges
vars == <<nodes, edges>>

Empty == [x \in {} |-> 0]
Init == nodes = Empty /\ edges = Empty

Set(r) == nodes' = r.N /\ edges' = r.E

AddNode(p, d) == Set(AfterAddNode(nodes, edges, p, d))
AddEdge(a, b, d) ==
  /\ a \in DOMAIN nodes /\ b \in DOMAIN nodes
  /\ Representable(edges, a, b)
  /\ Set(AfterAddEdge(nodes, edges, a, b, d))
RemoveNode(p) == p \in DOMAIN nodes /\ Set(AfterRemoveNode(nodes, edges, p))
RemoveEdge(s) == s \in DOMAIN edges /\ Set(AfterRemoveEdge(nodes, edges, s))

Next ==
  \/ \E p \in Points, d \in NodeData : AddNode(p, d)
  \/ \E a, b \in DOMAIN nodes, d \in EdgeData : AddEdge(a, b, d)
  \/ \E p \in DOMAIN nodes : RemoveNode(p)
  \/ \E s \in DOMAIN edges : RemoveEdge(s)

Spec == Init /\ [][Next]_vars

Small == Cardinality(DOMAIN nodes) <= MaxNodes /\ Cardinality(DOMAIN edges) <= MaxEdges

(* G01 *)
AlwaysPlanar == Planar(nodes, edges)

(* The action properties below quantify over every operation enabled in a  *)
(* state and look at the drawing it would lead to; as state predicates     *)
(* they are evaluated once per state instead of once per transition.       *)

(* G02: adding preserves what was there and draws only what was asked for. *)
AddNodePreserves ==
  \A p \in Points, d \in NodeData :
    LET r == AfterAddNode(nodes, edges, p, d)
    IN /\ Preserves(nodes, edges, r.N, r.E)
       /\ DOMAIN r.N = DOMAIN nodes \cup {p}
       /\ p \notin DOMAIN nodes => r.N[p] = d
       /\ \A t \in DOMAIN r.E : \E s \in DOMAIN edges : Within(t, s)

AddEdgePreserves ==
  \A a, b \in DOMAIN nodes, d \in EdgeData :
    (a # b /\ Representable(edges, a, b)) =>
    LET r == AfterAddEdge(nodes, edges, a, b, d)
    IN /\ Preserves(nodes, edges, r.N, r.E)
       /\ CoveredBy(Seg(a, b), {t \in DOMAIN r.E : Within(t, Seg(a, b))})
       /\ \A t \in DOMAIN r.E :
            \/ \E s \in DOMAIN edges : Within(t, s)
            \/ Within(t, Seg(a, b)) /\ r.E[t] = d
       /\ \A p \in DOMAIN r.N \ DOMAIN nodes :
            /\ r.N[p] = None
            /\ OnOpen(a, b, p)
            /\ \E s \in DOMAIN edges : OnOpen(s[1], s[2], p)
       (* drawing the same segment again changes nothing (G06) *)
       /\ \A e \in EdgeData : AfterAddEdge(r.N, r.E, a, b, e) = r

(* G03: a removal takes away exactly what was asked for and its strays.    *)
RemovePreserves ==
  /\ \A p \in DOMAIN nodes :
       LET r == AfterRemoveNode(nodes, edges, p)
       IN /\ p \notin DOMAIN r.N
          /\ DOMAIN r.E = {s \in DOMAIN edges : p \notin Ends(s)}
          /\ \A q \in DOMAIN nodes \ {p} :
               q \notin DOMAIN r.N <=>
                 (Seg(p, q) \in DOMAIN edges /\ Incident(edges, q) = {Seg(p, q)})
          /\ \A q \in DOMAIN r.N : r.N[q] = nodes[q]
          /\ \A s \in DOMAIN r.E : r.E[s] = edges[s]
  /\ \A s \in DOMAIN edges :
       LET r == AfterRemoveEdge(nodes, edges, s)
       IN /\ DOMAIN r.E = DOMAIN edges \ {s}
          /\ \A q \in DOMAIN nodes :
               q \notin DOMAIN r.N <=> (q \in Ends(s) /\ Incident(edges, q) = {s})
          /\ \A q \in DOMAIN r.N : r.N[q] = nodes[q]
          /\ \A t \in DOMAIN r.E : r.E[t] = edges[t]
============================================================================
