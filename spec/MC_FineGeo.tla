----------------------------- MODULE MC_FineGeo -----------------------------
(***************************************************************************)
(* FineGeo's predicates on Wide integers against those of Geom2D, for all  *)
(* four points of a small grid.                                            *)
(***************************************************************************)
EXTENDS FineGeo
CONSTANTS W, H
VARIABLES a, b, c, d
Grid == (0..(W - 1)) \X (0..(H - 1))
GSpec == /\ a = <<0, 0>> /\ b \in Grid /\ c \in Grid /\ d \in Grid
         /\ [][FALSE]_<<a, b, c, d>>
Agree ==
  /\ WCross(b, c, d) = WInt(Cross(b, c, d))
  /\ WDots(b, c, d) = WInt(Dot(b, c, d))
  /\ WOnClosed(b, c, d) <=> OnClosed(b, c, d)
  /\ WMeet(a, b, c, d) <=> Meet(a, b, c, d)
  /\ WCrossProperly(a, b, c, d) <=> CrossProperly(a, b, c, d)
(* The margins are on the right side: clear is true.                       *)
Clear ==
  /\ ClearlyOff(b, c, d) /\ b # c => ~OnClosed(b, c, d)
  /\ ClearlyApart(b, c) /\ Mag(<<b, c>>) > 0 => b # c
  /\ a # b /\ c # d =>
       LET v == <<a, b, c, d>>
           m == WDen(a, b, c, d)
           t == WTNum(a, b, c, d)
           s == WSNum(a, b, c, d)
       IN /\ LineAngled(v) => WSign(m) # 0
          /\ WSign(m) # 0 /\ ClearlyIn(t, m) /\ ClearlyIn(s, m) => Meet(a, b, c, d)
          /\ WSign(m) # 0 /\ (ClearlyOut(t, m) \/ ClearlyOut(s, m)) => ~Meet(a, b, c, d)
  /\ Height(b, c, d, 256) /\ Longest2(b, c, d) # WInt(0) => Cross(b, c, d) # 0
(* The exact results satisfy the judgments, and others do not.             *)
Judged ==
  /\ FineMidpoint(<<0, 0>>, <<2 * b[1], 2 * b[2]>>, <<WInt(b[1]), WInt(b[2])>>, 0) = {}
  /\ IsRoot(WInt(Abs(b[1])), WInt(b[1] * b[1]), WInt(0))
  /\ ~IsRoot(WInt(Abs(b[1]) + 2), WInt(b[1] * b[1]), WInt(1))
=============================================================================
