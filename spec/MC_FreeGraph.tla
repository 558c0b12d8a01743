--------------------------- MODULE MC_FreeGraph ---------------------------
(***************************************************************************)
(* FreeGraph against CreaseGraph: in every drawing that CreaseGraph        *)
(* reaches on a few points (scaled up to the unit of FreeGraph), for every *)
(* request, FreeGraph finds the request clear, accepts what CreaseGraph    *)
(* makes of it, and accepts nothing that lacks a part of that.             *)
(***************************************************************************)
EXTENDS MC_CreaseGraph
CONSTANTS Base, Scale
FR == INSTANCE FreeGraph

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Up(x) == Scale * (x + 2)
NodeOf(f, p) == <<Up(p[1]), Up(p[2]), f[p], 0, 1000 * p[1] + p[2]>>
Index(ps, p) == (CHOOSE k \in 1..Len(ps) : ps[k] = p) - 1
(* A state of the library that represents the drawing N, E. *)
StateOf(N, E, ps, ss) ==
  [N |-> [k \in 1..Len(ps) |-> NodeOf(N, ps[k])],
   E |-> [k \in 1..Len(ss) |-> <<Index(ps, ss[k][1]), Index(ps, ss[k][2]), E[ss[k]]>>]]
(* The places and slots after a request: what is kept keeps its index. *)
Follow(ps, N2) == ps \o SeqOf(DOMAIN N2 \ {ps[k] : k \in 1..Len(ps)})
FollowE(ss, N2, E2) ==
  LET kept == [k \in 1..Len(ss) |-> IF ss[k] \in DOMAIN E2 THEN ss[k]
                                     ELSE CHOOSE t \in Cut(ss[k], DOMAIN N2) : TRUE]
  IN kept \o SeqOf(DOMAIN E2 \ {kept[k] : k \in 1..Len(ss)})

Agrees(c, r) ==
  LET ps == SeqOf(DOMAIN nodes)
      ss == SeqOf(DOMAIN edges)
      ps2 == Follow(ps, r.N)
      ss2 == FollowE(ss, r.N, r.E)
      pre == TLCEval(StateOf(nodes, edges, ps, ss))
      post == TLCEval(StateOf(r.N, r.E, ps2, ss2))
      m == TLCEval(FR!Meaning(pre, c))
      res == [k |-> "ok",
              i |-> IF c.op = "add_node" THEN Index(ps2, <<(c.a[1] \div Scale) - 2, (c.a[2] \div Scale) - 2>>) ELSE -1,
              n |-> IF c.op = "add_node" THEN <<>> ELSE [k \in 1..(Len(ps2) - Len(ps)) |-> Len(ps) + k - 1],
              e |-> SeqOf({k \in 0..(Len(ss2) - 1) : k >= Len(ss) \/ ss[k + 1] # ss2[k + 1]})]
      Fails(st, p) == FR!FreeFailed(p, pre, c, res, m, st, FR!GC!NoQ) # {}
      noEdge == [post EXCEPT !.E = SubSeq(post.E, 1, Len(post.E) - 1)]
  IN /\ m.k # "unclear"
     /\ \A p \in {"G01", "G02", "G04", "G05", "G06"} : ~Fails(post, p)
     /\ FR!FreeSound(pre, c, res, m, post)
     /\ post # pre => Fails(pre, "G02")
     /\ Len(post.E) > 0 => Fails(noEdge, "G02")
     /\ \A k \in 1..Len(post.E) : Fails([post EXCEPT !.E[k][3] = 77], "G02")
     /\ \A k \in 1..Len(post.N) : Fails([post EXCEPT !.N[k][3] = 77], "G02")
     (* a crossing that is left alone *)
     /\ (c.op = "add_edge" /\ Len(post.N) > Len(pre.N)) =>
           Fails([pre EXCEPT !.E = Append(pre.E, <<c.a[1], c.a[2], c.a[3]>>)], "G01")

FreeAgrees ==
  /\ \A p \in Points, d \in NodeData :
       Agrees([op |-> "add_node", a |-> <<Up(p[1]), Up(p[2]), d, 1000 * p[1] + p[2]>>],
              AfterAddNode(nodes, edges, p, d))
  /\ \A a, b \in DOMAIN nodes, d \in EdgeData :
       Representable(edges, a, b) =>
         LET ps == SeqOf(DOMAIN nodes)
         IN Agrees([op |-> "add_edge", a |-> <<Index(ps, a), Index(ps, b), d>>],
                   IF a = b THEN [N |-> nodes, E |-> edges] ELSE AfterAddEdge(nodes, edges, a, b, d))
===========================================================================
