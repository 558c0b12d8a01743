----------------------- MODULE MC_CreaseGraphIndexed -----------------------
(* Model values for TLC (configuration files cannot hold tuples).          *)
EXTENDS CreaseGraphIndexed
Triangle == {<<0, 0>>, <<120, 0>>, <<0, 120>>}
Corners == {<<0, 0>>, <<120, 0>>, <<0, 120>>, <<120, 120>>}
Quincunx == Corners \cup {<<60, 60>>}
Row == {<<0, 0>>, <<60, 0>>, <<120, 0>>, <<60, 60>>}
Grid3 == {0, 60, 120} \X {0, 60, 120}
============================================================================
