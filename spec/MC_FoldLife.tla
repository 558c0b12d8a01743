---------------------------- MODULE MC_FoldLife ----------------------------
EXTENDS FoldLife
Str(s) == Scalar("str", s)
I(s) == Scalar("int", s)
Ints(a) == List([i \in 1..Len(a) |-> I(a[i])])
SomeObjects == {
  <<>>,
  <<<<"frame_title", Str("crane")>>, <<"edges_vertices", List(<<Ints(<<"0", "1">>), Ints(<<"1", "2">>)>>)>>>>,
  <<<<"edges_vertices", List(<<Ints(<<"0", "1">>), Ints(<<"1", "2">>)>>)>>, <<"frame_title", Str("crane")>>>>,
  <<<<"other:key", Str("frame_title")>>, <<"faceOrders", List(<<Ints(<<"0", "1", "-1">>)>>)>>,
    <<"edges_foldAngles", List(<<I("90"), I("-180")>>)>>, <<"file_spec", I("1")>>>>,
  <<<<"file_spec", I("1")>>, <<"frame_title", Scalar("null", "null")>>>>,
  <<<<"faceOrders", List(<<Ints(<<"0", "1">>)>>)>>>>,
  <<<<"vertices_coords", List(<<Ints(<<"0", "1">>), List(<<>>), Ints(<<"3">>)>>)>>>> }
SomeDamages == {"cut", "garbage", "not UTF-8", "array", "absent", "directory"}
============================================================================
