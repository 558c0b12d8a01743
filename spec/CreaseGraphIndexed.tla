------------------------- MODULE CreaseGraphIndexed -------------------------
(***************************************************************************)
(* The algorithm of src/graph/planar_graph.rs, step by step, on indexed    *)
(* lists of nodes and edges (exact arithmetic instead of floats).          *)
(*                                                                         *)
(* TLC explores it exhaustively on small lattices and checks that          *)
(*   - every call satisfies every clause of GraphContract (G01 ... G06),   *)
(*   - the drawing it represents moves exactly as CreaseGraph says, i.e.   *)
(*     this algorithm refines the abstract specification (Refines).        *)
(*                                                                         *)
(* The same exploration also prints the history that leads to each         *)
(* transition (PrintHistory), and the histories are replayed into the real *)
(* library: the conformance direction from specification to code.          *)
(***************************************************************************)
EXTENDS GraphContract, Json, SequencesExt

CONSTANTS OutOfRange   \* also call with indices that do not exist (TRUE / FALSE)

VARIABLES
  st,      \* [N, E] as in GraphContract
  last,    \* the last call: [pre, c, r]
  hist     \* the calls so far, as JSON-able tuples (hidden by the VIEW)

ivars == <<st, last, hist, nodes, edges>>

NewNode(p, d) == <<p[1], p[2], d, 0, 0>>
PosAt(s, i) == Pos(s.N[i + 1])
IndexOf(s, p) == LET c == {k \in 1..NC(s) : Pos(s.N[k]) = p}
                 IN (CHOOSE k \in c : \A j \in c : k <= j) - 1

(* split_edges_at_node: every edge with the node inside is cut in place,   *)
(* the other halves are appended.                                          *)
SplitEdgesAtNode(s, id) ==
  LET p == PosAt(s, id)
      hit == SelectSeq([k \in 1..EC(s) |-> k],
                       LAMBDA k : OnOpen(A(s, s.E[k]), B(s, s.E[k]), p))
      inplace == [k \in 1..EC(s) |->
                    IF Contains(hit, k) THEN <<s.E[k][1], id, s.E[k][3]>> ELSE s.E[k]]
      extra == [j \in 1..Len(hit) |-> <<s.E[hit[j]][2], id, s.E[hit[j]][3]>>]
  IN [s |-> [s EXCEPT !.E = inplace \o extra],
      e |-> [j \in 1..Len(hit) |-> hit[j] - 1] \o [j \in 1..Len(hit) |-> EC(s) + j - 1]]

AddNodeR(s, p, d) ==
  IF p \in Places(s) THEN [s |-> s, i |-> IndexOf(s, p), e |-> <<>>]
  ELSE LET s2 == [s EXCEPT !.N = Append(@, NewNode(p, d))]
           r == SplitEdgesAtNode(s2, NC(s))
       IN [s |-> r.s, i |-> NC(s), e |-> r.e]

(* split_edges_along_edge: cut at every crossing, in the order of the list. *)
RECURSIVE AtCrossings(_, _, _, _)
AtCrossings(s, xs, ns, es) ==
  IF xs = <<>> THEN [s |-> s, n |-> ns, e |-> es]
  ELSE LET x == Head(xs)
       IN IF x \in Places(s)
          THEN LET r == SplitEdgesAtNode(s, IndexOf(s, x))
               IN AtCrossings(r.s, Tail(xs), ns, es \o r.e)
          ELSE LET r == AddNodeR(s, x, 0)
               IN AtCrossings(r.s, Tail(xs), Append(ns, r.i), es \o r.e)

SplitEdgesAlongEdge(s, id) ==
  LET e0 == s.E[id + 1]
      a == A(s, e0)
      b == B(s, e0)
      others == SelectSeq([k \in 1..EC(s) |-> k],
                  LAMBDA k : /\ k # id + 1
                             /\ {s.E[k][1], s.E[k][2]} \cap {e0[1], e0[2]} = {}
                             /\ CrossProperly(a, b, A(s, s.E[k]), B(s, s.E[k])))
      xs == [j \in 1..Len(others) |->
               LET e == s.E[others[j]] IN CrossPoint(a, b, A(s, e), B(s, e))]
      RECURSIVE Uniq(_, _)
      Uniq(q, acc) == IF q = <<>> THEN acc
                      ELSE Uniq(Tail(q), IF Contains(acc, Head(q)) THEN acc ELSE Append(acc, Head(q)))
  IN AtCrossings(s, Uniq(xs, <<>>), <<>>, <<>>)

Ok(s, n, e) == [s |-> s, r |-> [k |-> "ok", i |-> -1, n |-> n, e |-> e]]

AddSimpleEdge(s, src, dst, d) ==
  LET s2 == [s EXCEPT !.E = Append(@, <<src, dst, d>>)]
      r == SplitEdgesAlongEdge(s2, EC(s))
  IN Ok(r.s, r.n, IF r.e = <<>> THEN <<EC(r.s) - 1>> ELSE r.e)

RECURSIVE AddPieces(_, _, _, _, _, _)
AddPieces(s, from, stops, d, ns, es) ==
  IF stops = <<>> THEN Ok(s, ns, es)
  ELSE LET to == Head(stops)
           r == IF Joined(s, from, to) THEN Ok(s, <<>>, <<>>) ELSE AddSimpleEdge(s, from, to, d)
       IN AddPieces(r.s, to, Tail(stops), d, ns \o r.r.n, es \o r.r.e)

AddEdgeR(s, src, dst, d) ==
  IF Joined(s, src, dst) THEN Ok(s, <<>>, <<>>)
  ELSE IF ~(InN(s, src) /\ InN(s, dst)) THEN [s |-> s, r |-> [k |-> "err", i |-> -1, n |-> <<>>, e |-> <<>>]]
  ELSE IF src = dst THEN Ok(s, <<>>, <<>>)
  ELSE LET a == PosAt(s, src)
           b == PosAt(s, dst)
           on == SelectSeq([k \in 1..NC(s) |-> k - 1], LAMBDA i : OnOpen(a, b, PosAt(s, i)))
           ordered == SortSeq(on, LAMBDA i, j : Dist2(a, PosAt(s, i)) < Dist2(a, PosAt(s, j)))
       IN IF on = <<>> THEN AddSimpleEdge(s, src, dst, d)
          ELSE AddPieces(s, src, Append(ordered, dst), d, <<>>, <<>>)

(* remove_node: delete the marked entries, renumber, report all to the right. *)
Degree(s, i) == Cardinality({k \in 1..EC(s) : s.E[k][1] = i \/ s.E[k][2] = i})
FromTo(m, n) == [k \in 1..(IF n > m THEN n - m ELSE 0) |-> m + k - 1]
Least(S, default) == IF S = {} THEN default ELSE CHOOSE x \in S : \A y \in S : x <= y

RemoveNodeR(s, id) ==
  IF ~InN(s, id) THEN Ok(s, <<>>, <<>>)
  ELSE LET gone == {k \in 1..EC(s) : s.E[k][1] = id \/ s.E[k][2] = id}
           other(k) == IF s.E[k][1] = id THEN s.E[k][2] ELSE s.E[k][1]
           marked == {id} \cup {other(k) : k \in {k \in gone : Degree(s, other(k)) = 1}}
           new(i) == i - Cardinality({m \in marked : m < i})
           keepN == SelectSeq([k \in 1..NC(s) |-> k], LAMBDA k : (k - 1) \notin marked)
           keepE == SelectSeq([k \in 1..EC(s) |-> k], LAMBDA k : k \notin gone)
       IN Ok([N |-> [j \in 1..Len(keepN) |-> s.N[keepN[j]]],
              E |-> [j \in 1..Len(keepE) |->
                       LET e == s.E[keepE[j]] IN <<new(e[1]), new(e[2]), e[3]>>]],
             FromTo(Least(marked, NC(s)), NC(s)),
             FromTo(Least({k - 1 : k \in gone}, EC(s)), EC(s)))

RemoveEdgeR(s, id) ==
  IF ~InE(s, id) THEN Ok(s, <<>>, <<>>)
  ELSE LET e == s.E[id + 1]
           n == EC(s)
       IN IF Degree(s, e[1]) = 1 THEN RemoveNodeR(s, e[1])
          ELSE IF Degree(s, e[2]) = 1 THEN RemoveNodeR(s, e[2])
          ELSE Ok([s EXCEPT !.E = [k \in 1..(n - 1) |-> IF k = id + 1 THEN s.E[n] ELSE s.E[k]]],
                  <<>>, <<id, n - 1>>)

----------------------------------------------------------------------------
NoCall == [pre |-> [N |-> <<>>, E |-> <<>>], c |-> [op |-> "init", a |-> <<>>],
           r |-> [k |-> "ok", i |-> -1, n |-> <<>>, e |-> <<>>]]

IInit ==
  /\ st = [N |-> <<>>, E |-> <<>>]
  /\ last = NoCall
  /\ hist = <<>>
  /\ nodes = CG!Empty /\ edges = CG!Empty

Step(op, a, s2, r) ==
  /\ st' = s2
  /\ last' = [pre |-> st, c |-> [op |-> op, a |-> a], r |-> r]
  /\ hist' = Append(hist, <<op>> \o a)
  /\ nodes' = AbsN(s2) /\ edges' = AbsE(s2)

IAddNode == \E p \in Points, d \in NodeData :
  LET x == AddNodeR(st, p, d)
  IN Step("add_node", <<p[1], p[2], d, 0>>, x.s, [k |-> "ok", i |-> x.i, n |-> <<>>, e |-> x.e])

Bad == IF OutOfRange THEN {NC(st), NC(st) + 7} ELSE {}
BadE == IF OutOfRange THEN {EC(st), EC(st) + 7} ELSE {}

IAddEdge == \E i \in (0..(NC(st) - 1)) \cup Bad, j \in (0..(NC(st) - 1)) \cup Bad, d \in EdgeData :
  /\ (InN(st, i) /\ InN(st, j)) => CG!Representable(edges, PosAt(st, i), PosAt(st, j))
  /\ LET x == AddEdgeR(st, i, j, d) IN Step("add_edge", <<i, j, d>>, x.s, x.r)

IRemoveNode == \E i \in (0..(NC(st) - 1)) \cup Bad :
  LET x == RemoveNodeR(st, i) IN Step("remove_node", <<i>>, x.s, x.r)

IRemoveEdge == \E i \in (0..(EC(st) - 1)) \cup BadE :
  LET x == RemoveEdgeR(st, i) IN Step("remove_edge", <<i>>, x.s, x.r)

INext == IAddNode \/ IAddEdge \/ IRemoveNode \/ IRemoveEdge
ISpec == IInit /\ [][INext]_ivars

ISmall == NC(st) <= MaxNodes /\ EC(st) <= MaxEdges
View == st

----------------------------------------------------------------------------
(* G01 on the indexed state itself, and the refinement.                    *)
Planar == WellFormed(st) /\ PlanarState(st)
RefinesCreaseGraph == CG!Spec

(* Every call satisfies the contract.  Evaluated on every transition (as   *)
(* an action constraint) because the view identifies states that differ    *)
(* only in the call that led to them.                                      *)
ContractHolds ==
  LET c == last'.c
      r == last'.r
  IN \A p \in {"G01", "G02", "G03", "G04", "G05", "G06"} :
       LET f == Failed(p, st, c, r, st', NoQ)
       IN Assert(f = {}, <<"contract violated", p, f, st, c, r, st'>>)

PrintHistory == PrintT(ToJson([h |-> hist']))
============================================================================
