--------------------------- MODULE CreaseGraphGen ---------------------------
(***************************************************************************)
(* Behaviours of CreaseGraph as test histories for the real library.       *)
(* The history variable is hidden from the state graph by the VIEW, so     *)
(* that TLC visits every drawing once and prints, for every transition of  *)
(* the abstract state graph, one history that ends with it.                *)
(***************************************************************************)
EXTENDS CreaseGraph, Json

VARIABLE hist
gvars == <<nodes, edges, hist>>

GInit == Init /\ hist = <<>>
Log(c) == hist' = Append(hist, c)
GNext ==
  \/ \E p \in Points, d \in NodeData :
       AddNode(p, d) /\ Log(<<"add_node", p[1], p[2], d>>)
  \/ \E a, b \in DOMAIN nodes, d \in EdgeData :
       AddEdge(a, b, d) /\ Log(<<"add_edge", a[1], a[2], b[1], b[2], d>>)
  \/ \E p \in DOMAIN nodes : RemoveNode(p) /\ Log(<<"remove_node", p[1], p[2]>>)
  \/ \E s \in DOMAIN edges :
       RemoveEdge(s) /\ Log(<<"remove_edge", s[1][1], s[1][2], s[2][1], s[2][2]>>)
GSpec == GInit /\ [][GNext]_gvars
GView == <<nodes, edges>>
GPrint == Small' => PrintT(ToJson([h |-> hist']))
Corners == {<<0, 0>>, <<120, 0>>, <<0, 120>>, <<120, 120>>}
Row == {<<0, 0>>, <<60, 0>>, <<120, 0>>, <<60, 60>>}
Quincunx == Corners \cup {<<60, 60>>}
Grid3 == {0, 60, 120} \X {0, 60, 120}
Plus == {<<0, 60>>, <<120, 60>>, <<60, 0>>, <<60, 120>>, <<60, 60>>}
=============================================================================
